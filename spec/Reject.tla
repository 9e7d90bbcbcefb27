--------------------------------- MODULE Reject ---------------------------------
(* Declarations that break rules, with generics, and code that uses the type as an error.                              *)
(* An accepted declaration is edited until it breaks a rule; generics and a where clause are put on it; then uses of   *)
(* the type are written.  The derive answers with one diagnostic and implementations that discharge every use.          *)
EXTENDS Decl, Json, TLC, SequencesExt

CONSTANTS MaxEdits, MaxUses, AllGens

VARIABLES d, edits, gens, uses, phase, diags, provided
vars == <<d, edits, gens, uses, phase, diags, provided>>

F(nm, ty, at) == [nm |-> nm, ty |-> ty, at |-> at]
V(at, style, fs) == [at |-> at, style |-> style, fs |-> fs]
Bases == { [kind |-> "struct", at |-> <<"msg">>, vs |-> <<V(<<>>, "named", <<F("a", "E", <<>>)>>)>>],
           [kind |-> "struct", at |-> <<"msg">>, vs |-> <<V(<<>>, "tuple", <<F("", "E", <<"from">>)>>)>>],
           [kind |-> "struct", at |-> <<"msg">>, vs |-> <<V(<<>>, "unit", <<>>)>>],
           [kind |-> "struct", at |-> <<>>, vs |-> <<V(<<>>, "named", <<F("source", "E", <<>>), F("b", "E", <<>>)>>)>>],
           [kind |-> "struct", at |-> <<"transparent">>, vs |-> <<V(<<>>, "tuple", <<F("", "E", <<>>)>>)>>],
           [kind |-> "enum", at |-> <<>>, vs |-> <<V(<<"msg">>, "tuple", <<F("", "E", <<"from">>)>>), V(<<"msg">>, "unit", <<>>)>>],
           [kind |-> "enum", at |-> <<"msg">>, vs |-> <<V(<<>>, "named", <<F("a", "E", <<"source">>)>>), V(<<"transparent">>, "tuple", <<F("", "E", <<>>)>>)>>],
           [kind |-> "enum", at |-> <<>>, vs |-> <<V(<<>>, "unit", <<>>), V(<<>>, "tuple", <<F("", "E", <<>>)>>)>>],
           \* several places that break a rule
           [kind |-> "enum", at |-> <<>>, vs |-> <<V(<<"msg">>, "tuple", <<F("", "E", <<"from">>)>>), V(<<>>, "unit", <<>>), V(<<>>, "named", <<F("a", "E", <<>>)>>)>>],
           [kind |-> "enum", at |-> <<"msg">>, vs |-> <<V(<<>>, "tuple", <<F("", "E", <<"from">>), F("", "E", <<"from">>), F("", "E", <<"source">>)>>),
                                                       V(<<"msg", "msg">>, "tuple", <<F("", "E", <<"source">>), F("", "E", <<"source">>)>>), V(<<>>, "unit", <<>>)>>],
           [kind |-> "struct", at |-> <<"msg", "msg">>, vs |-> <<V(<<>>, "named", <<F("a", "E", <<"from">>), F("b", "E", <<"from">>), F("c", "E", <<"source", "source">>)>>)>>] }
OuterAts == {"msg", "msgpos", "transparent", "fmt", "from", "source", "backtrace", "source()", "error()"}
FieldAts == {"from", "source", "backtrace", "msg", "transparent", "source()", "backtrace()", "error()"}
Lifes == {"none", "'a", "'a+'b"}
Types == {"none", "T", "T:Bound", "T:?Sized", "T=", "T,U"}
Consts == {"none", "N", "N="}
Wheres == {"none", "trivial", "self", "T:Clone", "hrtb", "assoc", "life", "two", "comma"}
Uses == {"box", "to_string", "question", "write", "source", "wrapped", "bound", "generic", "display", "dyn"}

Init == /\ d \in Bases /\ edits = 0 /\ gens = [life |-> "none", ty |-> "none", const |-> "none", where |-> "none"] /\ uses = {} /\ phase = "edit"
        /\ diags = 0 /\ provided = {}
Edit(e) == /\ phase = "edit" /\ edits < MaxEdits /\ d' = e /\ edits' = edits + 1 /\ UNCHANGED <<gens, uses, phase, diags, provided>>
EditOuter == \E a \in OuterAts : \E front \in BOOLEAN : Edit([d EXCEPT !.at = IF front THEN <<a>> \o @ ELSE Append(@, a)])
DropOuter == d.at # <<>> /\ Edit([d EXCEPT !.at = <<>>])
EditVariant == d.kind = "enum" /\ \E i \in 1..Len(d.vs) : \E a \in OuterAts : Edit([d EXCEPT !.vs[i].at = Append(@, a)])
DropVariant == d.kind = "enum" /\ \E i \in 1..Len(d.vs) : d.vs[i].at # <<>> /\ Edit([d EXCEPT !.vs[i].at = <<>>])
EditField == \E i \in 1..Len(d.vs) : \E j \in 1..Len(d.vs[i].fs) : \E a \in FieldAts : Edit([d EXCEPT !.vs[i].fs[j].at = Append(@, a)])
AddField == \E i \in 1..Len(d.vs) : \E at \in {<<>>, <<"from">>, <<"source">>, <<"backtrace">>} : \E ty \in {"E", "Bt"} :
               /\ d.vs[i].style # "unit" /\ Len(d.vs[i].fs) < 3
               /\ ty = "Bt" => ~Has(at, "from")
               /\ Edit([d EXCEPT !.vs[i].fs = Append(@, F(IF d.vs[i].style = "named" THEN <<"a", "b", "c">>[Len(@) + 1] ELSE "", ty, at))])
AddVariant == d.kind = "enum" /\ Len(d.vs) < 4 /\ \E v \in {V(<<>>, "unit", <<>>), V(<<>>, "tuple", <<F("", "E", <<>>)>>), V(<<"msg">>, "named", <<F("a", "E", <<"from">>)>>)} : Edit([d EXCEPT !.vs = Append(@, v)])
NamesApart == \A i \in 1..Len(d.vs) : \A j, k \in 1..Len(d.vs[i].fs) : j # k /\ d.vs[i].fs[j].nm # "" => d.vs[i].fs[j].nm # d.vs[i].fs[k].nm
MakeUnion == d.kind = "struct" /\ d.vs[1].style = "named" /\ Edit([d EXCEPT !.kind = "union"])
\* An error type carries the parameters; a source field with a lifetime breaks a rule of its own.
Mentions == \E i \in 1..Len(d.vs) : \E f \in Rng(d.vs[i].fs) : f.ty = "E"
RulesG == Rules(d) \cup R(gens.life # "none" /\ \E i \in 1..Len(d.vs) : \E f \in Rng(d.vs[i].fs) : f.ty = "E" /\ HasAny(f.at, {"from", "source"}), "lifetime")
Generics == /\ phase = "edit" /\ edits > 0 /\ NamesApart
            /\ \E l \in Lifes : \E t \in Types : \E c \in Consts : \E w \in Wheres :
                 /\ (l # "none" \/ t # "none") => Mentions
                 /\ (w \in {"T:Clone", "hrtb", "assoc", "two", "comma"}) => t \notin {"none", "T:?Sized"}
                 /\ w = "life" => l = "'a+'b"
                 /\ AllGens \/ Cardinality({x \in {l, t, c, w} : x # "none"}) <= 1 \/ (t # "none" /\ w \in {"T:Clone", "assoc"})
                 /\ gens' = [life |-> l, ty |-> t, const |-> c, where |-> w]
            /\ phase' = "derive" /\ UNCHANGED <<d, edits, uses, diags, provided>>
\* The derive: exactly one diagnostic, and the implementations a user of the type relies on.
Derive == /\ phase = "derive" /\ RulesG # {} /\ diags' = 1 /\ provided' = {"Error", "Display"} /\ phase' = "use" /\ UNCHANGED <<d, edits, gens, uses>>
Needs(u) == CASE u \in {"to_string", "write", "display"} -> {"Display"} [] u \in {"box", "question", "source", "wrapped", "bound", "generic", "dyn"} -> {"Error", "Display"}
Use == /\ phase = "use" /\ Cardinality(uses) < MaxUses
       /\ \E u \in Uses \ uses : uses' = uses \cup {u} /\ diags' = diags + Cardinality(Needs(u) \ provided)
       /\ UNCHANGED <<d, edits, gens, phase, provided>>
Compile == /\ phase = "use" /\ Cardinality(uses) = MaxUses /\ phase' = "compiled" /\ UNCHANGED <<d, edits, gens, uses, diags, provided>>
           /\ PrintT("CASE " \o ToJson([d |-> d, rules |-> RulesG, gens |-> gens, uses |-> uses, diags |-> diags]))
Next == EditOuter \/ DropOuter \/ EditVariant \/ DropVariant \/ EditField \/ AddField \/ AddVariant \/ MakeUnion \/ Generics \/ Derive \/ Use \/ Compile

OneDiagnostic == phase \in {"use", "compiled"} => diags = 1
=============================================================================
