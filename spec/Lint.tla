----------------------------------- MODULE Lint -----------------------------------
(* A declaration whose own code is free of warnings, and the lints the generated code can run into.               *)
(* Entities carry what lints look at: deprecated or not, how they are named, which types and bounds they mention,  *)
(* where they stand.  The expansion is a set of occurrences: what is mentioned, under which lint that matters,     *)
(* whether the tokens are the user's own or the derive's, and which allow covers them.                             *)
EXTENDS Decl, Json, TLC

CONSTANTS MaxEdits, Code

VARIABLES d, step, goal
vars == <<d, step, goal>>

\* field [nm, ty, at, dep, ns]   variant [at, style, fs, dep, ns, show]   decl [kind, at, vs, dep, ns, show, gens, place, allowat]
\*   ns     how it is named: "plain" "under" _a   "tail" a_   "camel" aB   "dunder" a__b   "raw" r#type   "num" a0
\*   show   what a message contains: "disp" {a}  "dbg" {a:?}  "hex" {a:p}  "arg" .a  "named" n = .a  "self" {self}  "qual" a path longer than needed
\*   gens   "bound" a deprecated trait bounds a parameter   "where" the same in a where clause   "qbound" "qwhere" a path longer than needed there  "unused lifetimes" two lifetimes   "const" "default"
F(nm, ty, at) == [nm |-> nm, ty |-> ty, at |-> at, dep |-> FALSE, ns |-> "plain"]
V(at, style, fs) == [at |-> at, style |-> style, fs |-> fs, dep |-> FALSE, ns |-> "plain", show |-> {"disp"}]
D(kind, at, vs) == [kind |-> kind, at |-> at, vs |-> vs, dep |-> FALSE, ns |-> "plain", gens |-> {}, place |-> "pub", allowat |-> "item"]
Bases == {
  D("struct", <<"msg">>, <<V(<<>>, "named", <<F("a", "Int", <<>>)>>)>>),
  D("struct", <<"msg">>, <<V(<<>>, "tuple", <<F("", "Str", <<>>)>>)>>),
  D("struct", <<"msg">>, <<V(<<>>, "unit", <<>>)>>),
  D("struct", <<"msg">>, <<V(<<>>, "named", <<F("source", "E", <<>>), F("b", "Bt", <<>>)>>)>>),
  D("struct", <<"msg">>, <<V(<<>>, "named", <<F("a", "OptE", <<"source", "backtrace">>), F("b", "Int", <<>>)>>)>>),
  D("struct", <<"msg">>, <<V(<<>>, "named", <<F("a", "E", <<"from">>), F("b", "OptBt", <<"backtrace">>)>>)>>),
  D("struct", <<"transparent">>, <<V(<<>>, "tuple", <<F("", "E", <<"from">>)>>)>>),
  D("struct", <<"transparent">>, <<V(<<>>, "named", <<F("a", "E", <<>>)>>)>>),
  D("struct", <<"msg">>, <<V(<<>>, "named", <<F("a", "T", <<>>), F("b", "OptT", <<"source">>)>>)>>),
  D("enum", <<>>, <<V(<<"msg">>, "named", <<F("a", "Int", <<>>), F("b", "Str", <<>>)>>), V(<<"msg">>, "unit", <<>>)>>),
  D("enum", <<>>, <<V(<<"msg">>, "tuple", <<F("", "E", <<"from">>)>>), V(<<"transparent">>, "named", <<F("a", "F", <<"from">>)>>)>>),
  D("enum", <<"msg">>, <<V(<<>>, "named", <<F("a", "OptE", <<"source">>), F("b", "Bt", <<"backtrace">>)>>), V(<<"fmt">>, "named", <<F("a", "Int", <<>>)>>)>>),
  D("enum", <<>>, <<V(<<"msg">>, "named", <<F("source", "E", <<"backtrace">>)>>), V(<<"fmt">>, "tuple", <<F("", "Int", <<>>), F("", "Str", <<>>)>>)>>),
  D("enum", <<>>, <<V(<<"msg">>, "named", <<F("a", "T", <<>>), F("b", "RefA", <<>>)>>), V(<<"msg">>, "tuple", <<F("", "OptT", <<"source">>)>>)>>),
  D("enum", <<>>, <<>>) }

NameStyles == {"plain", "under", "tail", "camel", "dunder", "raw", "num"}
Shows == {"disp", "dbg", "ptr", "arg", "named", "self", "qual"}
FTypes == {"Int", "Str", "E", "F", "OptE", "Bt", "OptBt", "T", "OptT", "DepT", "OptDepT", "DepE", "OptDepE", "RefA", "Path", "Unit", "Void", "BoxDyn", "BoxDynSync", "QE", "OptQE", "QGen", "OptQGen"}
Places == {"pub", "private", "fn", "macro"}

\* A deprecated type is an ordinary error type to the rules.
Base(ty) == CASE ty \in {"DepE", "QE", "Void"} -> "E" [] ty \in {"OptDepE", "OptQE"} -> "OptE" [] ty \in {"DepT", "QGen"} -> "T" [] ty \in {"OptDepT", "OptQGen"} -> "OptT" [] OTHER -> ty
Plain(x) == [x EXCEPT !.vs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.fs = [j \in DOMAIN @ |-> [@[j] EXCEPT !.ty = Base(@)]]]]]
AllFields == UNION {Rng(d.vs[i].fs) : i \in 1..Len(d.vs)}
Eff(v) == Effective(d, v)
HasMsg(v) == HasAny(Eff(v), MsgLike)
Params == {"T", "OptT", "DepT", "OptDepT", "QGen", "OptQGen"}
Generic == \E f \in AllFields : f.ty \in Params
\* What a placeholder needs of the types it shows.
Displayable(ty) == ty \in {"Int", "Str", "E", "F", "T", "DepT", "DepE", "Path", "BoxDyn", "BoxDynSync", "RefA", "QE", "QGen", "Void"}
ShowsOk == \A i \in 1..Len(d.vs) : LET v == d.vs[i] IN
              /\ (v.show # {"disp"} /\ v.show # {}) => HasMsg(v) /\ (Has(v.at, "msg") \/ d.kind = "struct")
              /\ v.show \cap {"ptr"} # {} => \E f \in Rng(v.fs) : f.ty = "RefA"
              /\ v.show \ {"self", "qual"} # {} => v.fs # <<>> \/ v.show = {"disp"}
Ok == /\ Accepted(Plain(d)) /\ TypeChecks(Plain(d)) /\ ShowsOk
      \* two conversions whose types can be the same overlap
      /\ (Cardinality(Froms(Plain(d))) > 1 => \A i \in Froms(Plain(d)) : FromTy(Plain(d), i) # "T")
      /\ (d.kind = "enum" => HasDisplay(d) \/ d.vs = <<>>) /\ (d.gens \cap {"bound", "where", "default", "qbound", "qwhere"} # {} => Generic) /\ ("lifetimes" \in d.gens => \E f \in AllFields : f.ty = "RefA")
      /\ \A i \in 1..Len(d.vs) : \A j, k \in 1..Len(d.vs[i].fs) : j # k /\ d.vs[i].fs[j].nm # "" => d.vs[i].fs[j].nm # d.vs[i].fs[k].nm
      \* an inherited message names no field
      /\ \A i \in 1..Len(d.vs) : d.kind = "enum" /\ ~HasAny(d.vs[i].at, DisplayLike) /\ HasMsg(d.vs[i]) => d.vs[i].show \in {{"disp"}, {}}

Init == d \in Bases /\ step = 0 /\ goal \in 0..MaxEdits
E(x) == d' = x
SetPlace == \E p \in Places : p # d.place /\ E([d EXCEPT !.place = p])
SetAllow == \E a \in {"item", "entity", "module"} : a # d.allowat /\ E([d EXCEPT !.allowat = a])
SetGens == \E g \in {"bound", "where", "qbound", "qwhere", "lifetimes", "const", "default"} : g \notin d.gens /\ E([d EXCEPT !.gens = @ \cup {g}])
DepType == ~d.dep /\ E([d EXCEPT !.dep = TRUE])
NameType == \E s \in {"snake", "raw", "under"} : E([d EXCEPT !.ns = s])
OnVariant == \E i \in 1..Len(d.vs) :
     \/ d.kind = "enum" /\ ~d.vs[i].dep /\ E([d EXCEPT !.vs[i].dep = TRUE])
     \/ d.kind = "enum" /\ \E s \in {"snake", "raw", "under"} : E([d EXCEPT !.vs[i].ns = s])
     \/ \E s \in Shows : s \notin d.vs[i].show /\ E([d EXCEPT !.vs[i].show = IF @ = {"disp"} THEN {s} ELSE @ \cup {s}])
     \/ d.vs[i].show # {} /\ E([d EXCEPT !.vs[i].show = {}])
OnField == \E i \in 1..Len(d.vs) : \E j \in 1..Len(d.vs[i].fs) :
     \/ ~d.vs[i].fs[j].dep /\ E([d EXCEPT !.vs[i].fs[j].dep = TRUE])
     \/ d.vs[i].fs[j].nm \notin {"", "source"} /\ \E s \in NameStyles : s # d.vs[i].fs[j].ns /\ E([d EXCEPT !.vs[i].fs[j].ns = s])
     \/ \E t \in FTypes : t # d.vs[i].fs[j].ty /\ E([d EXCEPT !.vs[i].fs[j].ty = t])
AddField == \E i \in 1..Len(d.vs) : d.vs[i].style # "unit" /\ Len(d.vs[i].fs) < 3
               /\ \E t \in FTypes : E([d EXCEPT !.vs[i].fs = Append(@, F(IF d.vs[i].style = "named" THEN <<"x", "y", "z">>[Len(@) + 1] ELSE "", t, <<>>))])
AddVariant == d.kind = "enum" /\ Len(d.vs) < 4 /\ \E v \in {V(<<"msg">>, "named", <<F("a", "DepE", <<"source">>)>>), V(<<"transparent">>, "tuple", <<F("", "DepE", <<>>)>>),
                 V(<<"fmt">>, "named", <<F("a", "RefA", <<>>), F("b", "Unit", <<>>)>>), V(<<"msg">>, "tuple", <<F("", "BoxDyn", <<>>), F("", "Bt", <<>>)>>),
                 V(<<"msg">>, "named", <<F("source", "OptE", <<>>), F("b", "OptBt", <<"backtrace">>)>>)} : E([d EXCEPT !.vs = Append(@, v)])
Change == /\ step < goal /\ step' = step + 1 /\ goal' = goal
          /\ SetPlace \/ SetAllow \/ SetGens \/ DepType \/ NameType \/ OnVariant \/ OnField \/ AddField \/ AddVariant
          /\ Ok'

\* ---- the expansion -----------------------------------------------------------------------------------------------
\* impl: Error, Display, From.  by: whose tokens.  allows: what covers it.
O(impl, lint, by, allows) == [impl |-> impl, lint |-> lint, by |-> by, allows |-> allows]
New == Code = "fixed"
ErrorAllows == IF New THEN {"deprecated", "unused_qualifications"} ELSE {"unused_qualifications"}
DisplayAllows == {"unused_qualifications"} \cup (IF New /\ (d.kind = "enum" \/ Generic \/ d.gens # {} \/ \E f \in AllFields : f.ty = "RefA") THEN {"deprecated"} ELSE {})
FromAllows == {"deprecated", "unused_qualifications", "clippy"}
Impls == {"Error"} \cup (IF HasDisplay(d) \/ d.vs = <<>> THEN {"Display"} ELSE {}) \cup (IF Froms(Plain(d)) # {} THEN {"From"} ELSE {})
AllowsOf(m) == CASE m = "Error" -> ErrorAllows [] m = "Display" -> DisplayAllows [] m = "From" -> FromAllows
DepTy(ty) == ty \in {"DepE", "OptDepE", "DepT", "OptDepT"}
\* Bounds the derive infers name the field's type with the user's own tokens.
ErrorBound(v) == LET pv == Plain(d).vs[CHOOSE i \in 1..Len(d.vs) : d.vs[i] = v] s == IF Transparent(Plain(d), pv) THEN 1 ELSE SourceField(pv) IN
                 s # 0 /\ v.fs[s].ty \in {"DepT", "OptDepT", "QGen", "OptQGen"}
DisplayBound(v) == (HasMsg(v) /\ v.show \cap {"disp", "dbg"} # {} /\ \E f \in Rng(v.fs) : f.ty \in {"DepT", "QGen"}) \/ (Has(Eff(v), "transparent") /\ v.fs[1].ty \in {"DepT", "QGen"})
QualTy(ty) == ty \in {"QE", "OptQE", "QGen", "OptQGen"}
SnakeLocal(ns) == New \/ ns \in {"plain", "tail", "raw", "num"}
Variants == {d.vs[i] : i \in 1..Len(d.vs)}
Occ ==
  \* the type itself is named with the derive's own tokens
  {O(m, "deprecated", "derive", AllowsOf(m)) : m \in IF d.dep THEN Impls ELSE {}}
  \* declared bounds are repeated on every impl
  \cup {O(m, "deprecated", "user", AllowsOf(m)) : m \in IF d.gens \cap {"bound", "where"} # {} THEN Impls ELSE {}}
  \cup {O("Error", "deprecated", "user", ErrorAllows) : v \in {w \in Variants : ErrorBound(w)}}
  \cup {O("Display", "deprecated", "user", DisplayAllows) : v \in {w \in Variants : DisplayBound(w)}}
  \* From<Ty> and fn from(source: Ty)
  \cup {O("From", "deprecated", "user", FromAllows) : f \in {g \in AllFields : Has(g.at, "from") /\ (DepTy(g.ty) \/ g.dep)}}
  \* patterns
  \cup {O("Display", "deprecated", "user", DisplayAllows \cup {"deprecated", "unused_variables"}) : f \in {g \in AllFields : g.dep}}
  \cup {O(m, "deprecated", "user", {"deprecated"}) : m \in IF \E v \in Variants : v.dep THEN Impls \ {"From"} ELSE {}}
  \cup {O("Error", "deprecated", "user", {"deprecated"}) : f \in {g \in AllFields : g.dep /\ d.kind = "enum"}}
  \cup {O("Display", "unused_variables", "user", {"unused_variables"}) : f \in AllFields}
  \* locals of placeholders; they must resolve where the format string does, so they count as the user's
  \cup {O("Display", "non_snake_case", "user", {}) : f \in {g \in AllFields : \E v \in Variants : g \in Rng(v.fs) /\ HasMsg(v) /\ v.show \cap {"disp", "dbg", "ptr"} # {} /\ ~SnakeLocal(g.ns)}}
  \* paths longer than needed, which the user's own allow covers in the declaration but not in the impls: in bounds that are repeated, in types, in arguments
  \cup {O(m, "unused_qualifications", "user", AllowsOf(m)) : m \in IF d.gens \cap {"qbound", "qwhere"} # {} THEN Impls ELSE {}}
  \cup {O("From", "unused_qualifications", "user", FromAllows) : f \in {g \in AllFields : Has(g.at, "from") /\ QualTy(g.ty)}}
  \cup {O("Error", "unused_qualifications", "user", ErrorAllows) : v \in {w \in Variants : ErrorBound(w)}}
  \cup {O("Display", "unused_qualifications", "user", DisplayAllows) : v \in {w \in Variants : DisplayBound(w) \/ (HasMsg(w) /\ "qual" \in w.show)}}
  \cup {O(m, "unused_qualifications", "derive", AllowsOf(m)) : m \in Impls}
  \cup {O(m, "elided_lifetimes_in_paths", "derive", {}) : m \in Impls \cap {"Display", "Error"}}
  \cup {O("Display", "unconditional_recursion", "user", {}) : v \in {w \in Variants : HasMsg(w) /\ "self" \in w.show}}
\* Lints look at the user's own tokens and at nothing else a derive wrote, but for these.
EvenInDerives == {"unused_qualifications"}
Reported(o) == o.lint \notin o.allows /\ (o.by = "user" \/ o.lint \in EvenInDerives)
Warnings == {o.lint : o \in {z \in Occ : Reported(z)}}
Recursive == Cardinality({i \in 1..Len(d.vs) : HasMsg(d.vs[i]) /\ "self" \in d.vs[i].show})

Show == /\ step = goal /\ step' = goal + 1 /\ UNCHANGED <<d, goal>>
        /\ PrintT("CASE " \o ToJson([d |-> d, warn |-> Warnings, recursive |-> Recursive, bt |-> \E i \in 1..Len(d.vs) : BacktraceField(d.vs[i]) # 0, step |-> step]))
Next == Change \/ Show

\* ---- properties ---------------------------------------------------------------------------------------------------
Silent == Warnings \subseteq {"unconditional_recursion"}
RecursionTold == ("unconditional_recursion" \in Warnings) <=> Recursive > 0
====================================================================================
