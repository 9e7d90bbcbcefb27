---------------------------------- MODULE Config ----------------------------------
(* One declaration in every build configuration.                                                                   *)
(* A configuration is a graph of units (the user's crate, another crate that may use thiserror, a macro crate that   *)
(* may ask for syn's full syntax), a compiler and a profile; it determines what the runtime crate exports.           *)
(* The expansion mentions runtime items; a declaration is accepted where all of them exist, and its meaning is taken *)
(* from the item that a mention resolves to.  What a user is told depends on less: on std and on the compiler.       *)
EXTENDS Decl, Json, TLC

CONSTANTS MinEdits, MaxEdits

VARIABLES d, step, goal
vars == <<d, step, goal>>

\* ---- configurations ----------------------------------------------------------------------------------------------
Configs == [asks : BOOLEAN, other : {"none", "nostd", "std"}, full : BOOLEAN, compiler : {"stable", "nightly"}, profile : {"debug", "release"},
            crate : {"std", "nostd"}, edition : {"2015", "2018", "2021", "2024"}]
\* Features are united over the graph.
Std(g) == g.asks \/ g.other = "std"
Gma(g) == g.compiler = "nightly"
Parser(g) == IF g.full THEN "syn" ELSE "scanner"
Caps(g) == [std |-> Std(g), gma |-> Gma(g), parser |-> Parser(g)]
AllCaps == {Caps(g) : g \in Configs}
Exports(k) == {"AsDynError", "AsDisplay", "Var", "Error"} \cup (IF k.gma THEN {"ThiserrorProvide", "Request"} ELSE {}) \cup (IF k.std THEN {"Backtrace"} ELSE {})

\* ---- declarations -------------------------------------------------------------------------------------------------
\* field [nm, ty, at, show]    variant [at, style, fs]    decl [kind, at, vs]
F(nm, ty, at, show) == [nm |-> nm, ty |-> ty, at |-> at, show |-> show]
V(at, style, fs) == [at |-> at, style |-> style, fs |-> fs]
D(kind, at, vs) == [kind |-> kind, at |-> at, vs |-> vs]
Bases == {
  D("struct", <<"msg">>, <<V(<<>>, "named", <<F("a", "Int", <<>>, "plain")>>)>>),
  D("struct", <<"msg">>, <<V(<<>>, "tuple", <<F("", "Path", <<>>, "plain"), F("", "Int", <<>>, "e1")>>)>>),
  D("struct", <<"msg">>, <<V(<<>>, "named", <<F("a", "E", <<"from">>, "plain")>>)>>),
  D("struct", <<"msg">>, <<V(<<>>, "named", <<F("source", "OptE", <<>>, "no"), F("b", "Bt", <<>>, "no")>>)>>),
  D("struct", <<"msg">>, <<V(<<>>, "named", <<F("source", "E", <<"backtrace">>, "no")>>)>>),
  D("struct", <<"transparent">>, <<V(<<>>, "tuple", <<F("", "E", <<"from">>, "no")>>)>>),
  D("struct", <<>>, <<V(<<>>, "named", <<F("a", "Int", <<>>, "no"), F("source", "BoxDyn", <<>>, "no")>>)>>),
  D("enum", <<>>, <<V(<<"msg">>, "named", <<F("a", "Int", <<>>, "plain"), F("b", "Str", <<>>, "pad")>>), V(<<"msg">>, "unit", <<>>)>>),
  D("enum", <<"msg">>, <<V(<<>>, "named", <<F("a", "E", <<"source">>, "no")>>), V(<<"msg">>, "tuple", <<F("", "OptE", <<"source">>, "no"), F("", "Int", <<>>, "dbg")>>)>>),
  D("struct", <<"msg">>, <<V(<<>>, "named", <<F("source", "BoxSyncUnwind", <<>>, "no")>>)>>),
  D("enum", <<"msg">>, <<V(<<>>, "named", <<F("source", "BoxSend", <<>>, "no")>>), V(<<>>, "tuple", <<F("", "BoxSyncUnwind", <<"from">>, "no")>>), V(<<"transparent">>, "tuple", <<F("", "BoxDynSync", <<>>, "no")>>)>>),
  D("enum", <<>>, <<V(<<"transparent">>, "tuple", <<F("", "BoxDyn", <<"from">>, "no")>>), V(<<"fmt">>, "tuple", <<F("", "Path", <<>>, "no")>>)>>),
  D("enum", <<>>, <<V(<<"msg">>, "tuple", <<F("", "E", <<"from">>, "no"), F("", "OptBt", <<"backtrace">>, "no")>>), V(<<"msg">>, "named", <<F("a", "PathRef", <<>>, "dbg")>>)>>) }

Dyns == {"BoxSend", "BoxDynSync", "BoxSyncUnwind"}
PathTys == {"Path", "PathRef", "BoxPath", "ArcPath", "CowPath", "Derefs"}
FTypes == {"Int", "Str", "E", "OptE", "BoxDyn", "BoxE", "Bt", "OptBt", "Both"} \cup Dyns \cup PathTys
Exprs == {"e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9", "e10", "e11", "e12", "e13", "e14", "e15", "e16", "e17", "e18", "e19", "e20"}
\* arguments without a name, some of which one parser reads only in part
Unnamed == {"u1", "u2", "u3", "u4", "u5"}
Shows == {"no", "plain", "dbg", "pad", "arg", "argdbg", "named", "lossy", "ptr"} \cup Exprs \cup Unnamed
\* what may be shown how
CanShow(ty, s) ==
    CASE s = "no" -> TRUE
      [] s = "plain" -> ty \in {"Int", "Str", "E", "BoxDyn", "BoxE", "Both"} \cup PathTys \cup Dyns
      [] s = "pad" -> ty \in {"Int", "Str", "E", "BoxDyn", "BoxE", "Both"} \cup Dyns
      [] s = "dbg" \/ s = "argdbg" -> ty \notin {"BoxDyn", "Bt", "OptBt", "OptE", "BoxE"} \cup Dyns
      [] s \in {"arg", "named"} -> ty \in {"Int", "Str", "E", "BoxDyn", "BoxE", "Both"} \cup Dyns
      [] s = "lossy" -> ty \in PathTys
      [] s = "ptr" -> ty \in {"PathRef", "ArcPath", "BoxE"}
      [] s \in Exprs \cup Unnamed -> ty = "Int"
Eff(v) == Effective(d, v)
Ok == /\ Accepted(d) /\ TypeChecks(d)
      /\ \A i \in 1..Len(d.vs) : LET v == d.vs[i] IN
           /\ \A j \in 1..Len(v.fs) : CanShow(v.fs[j].ty, v.fs[j].show)
           /\ (\E j \in 1..Len(v.fs) : v.fs[j].show # "no") => IF d.kind = "struct" THEN Has(d.at, "msg") ELSE Has(v.at, "msg")
           /\ \A j, k \in 1..Len(v.fs) : j # k /\ v.fs[j].nm # "" => v.fs[j].nm # v.fs[k].nm
      /\ ~HasDisplay(d) => \A i \in 1..Len(d.vs) : d.vs[i].at = <<>>

Init == d \in Bases /\ Ok /\ step = 0 /\ goal \in MinEdits..MaxEdits
Pos == {<<i, j>> \in (1..4) \X (1..3) : i <= Len(d.vs) /\ j <= Len(d.vs[i].fs)}
Retype == \E p \in Pos : \E t \in FTypes : t # d.vs[p[1]].fs[p[2]].ty /\ d' = [d EXCEPT !.vs[p[1]].fs[p[2]].ty = t]
RetypeShow == \E p \in Pos : \E t \in PathTys \cup {"Both", "BoxE"} : \E s \in {"plain", "dbg", "lossy"} : d' = [d EXCEPT !.vs[p[1]].fs[p[2]].ty = t, !.vs[p[1]].fs[p[2]].show = s]
Reshow == \E p \in Pos : \E s \in Shows : s # d.vs[p[1]].fs[p[2]].show /\ d' = [d EXCEPT !.vs[p[1]].fs[p[2]].show = s]
ReAttr == \E p \in Pos : \E a \in {<<>>, <<"source">>, <<"from">>, <<"backtrace">>, <<"source", "backtrace">>, <<"from", "backtrace">>} : d' = [d EXCEPT !.vs[p[1]].fs[p[2]].at = a]
Rename == \E p \in Pos : d.vs[p[1]].fs[p[2]].nm # "" /\ \E n \in {"a", "b", "source", "backtrace"} : d' = [d EXCEPT !.vs[p[1]].fs[p[2]].nm = n]
AddField == \E i \in 1..Len(d.vs) : d.vs[i].style # "unit" /\ Len(d.vs[i].fs) < 3 /\ \E t \in FTypes : \E s \in {"no", "plain", "dbg", "e1"} :
               d' = [d EXCEPT !.vs[i].fs = Append(@, F(IF d.vs[i].style = "named" THEN <<"x", "y", "z">>[Len(@) + 1] ELSE "", t, <<>>, s))]
DropField == \E p \in Pos : d' = [d EXCEPT !.vs[p[1]].fs = SubSeq(@, 1, p[2] - 1) \o SubSeq(@, p[2] + 1, Len(@))]
AddVariant == d.kind = "enum" /\ Len(d.vs) < 4 /\ \E b \in Bases : \E v \in Rng(b.vs) :
               d' = [d EXCEPT !.vs = Append(@, [v EXCEPT !.at = IF @ = <<>> THEN <<"msg">> ELSE @])]
Change == /\ step < goal /\ step' = step + 1 /\ goal' = goal
          /\ Retype \/ RetypeShow \/ Reshow \/ ReAttr \/ Rename \/ AddField \/ DropField \/ AddVariant
          /\ Ok'

\* ---- what the expansion mentions ------------------------------------------------------------------------------------
Vs == Rng(d.vs)
Prov(v) == Providers(d, v)
Mentions ==
  (IF \E v \in Vs : SourceField(v) # 0 \/ Transparent(d, v) THEN {"AsDynError"} ELSE {})
  \cup (IF \E v \in Vs : Prov(v) # <<>> THEN {"Request"} ELSE {})
  \cup (IF \E v \in Vs : \E k \in 1..Len(Prov(v)) : Prov(v)[k].k = "fwd" THEN {"ThiserrorProvide"} ELSE {})
  \cup (IF \E v \in Vs : BacktraceCaptured(v) # 0 \/ \E k \in 1..Len(Prov(v)) : Prov(v)[k].k = "own" THEN {"Backtrace"} ELSE {})
  \cup {"AsDisplay", "Error"}
\* Method lookup of as_display on a reference to the field: first &T for a T that is Display, then Path and PathBuf along
\* the types the field dereferences to.
IsDisplay(ty) == ty \in {"Int", "Str", "E", "BoxDyn", "BoxE", "Both"} \cup Dyns
Reaches(ty) == ty \in PathTys \cup {"Both"}
Candidates(ty, k) == (IF IsDisplay(ty) THEN <<"ref">> ELSE <<>>) \o (IF k.std /\ Reaches(ty) THEN <<"path">> ELSE <<>>)
Plain(v) == {j \in 1..Len(v.fs) : v.fs[j].show = "plain"}
\* A number means a field or an argument: with both about, it is refused everywhere.
Mixed(v) == v.style = "tuple" /\ (\E j \in 1..Len(v.fs) : v.fs[j].show \in Unnamed) /\ (\E j \in 1..Len(v.fs) : v.fs[j].show \in {"plain", "dbg", "pad", "ptr"})
AcceptedIn(k) == /\ \A v \in Vs : ~Mixed(v)
                 /\ Mentions \subseteq Exports(k)
                 /\ \A v \in Vs : \A j \in Plain(v) : Candidates(v.fs[j].ty, k) # <<>>
Resolved(k) == [i \in 1..Len(d.vs) |-> [j \in 1..Len(d.vs[i].fs) |-> IF j \in Plain(d.vs[i]) THEN Head(Candidates(d.vs[i].fs[j].ty, k)) ELSE "none"]]

\* ---- observations ----------------------------------------------------------------------------------------------------
Raw(ty, val) == CASE ty = "Int" -> "7" [] ty = "Str" -> "st" [] ty \in {"E", "BoxDyn", "BoxE"} \cup Dyns -> "leaf" [] ty = "Both" -> "both" [] OTHER -> "p~q"
ExprTab == [e1 |-> "8", e2 |-> "7", e3 |-> "1", e4 |-> "14", e5 |-> "7", e6 |-> "21", e7 |-> "7", e8 |-> "true", e9 |-> "9", e10 |-> "7", e11 |-> "7", e12 |-> "-7", e13 |-> "49",
            e14 |-> "7", e15 |-> "10", e16 |-> "7", e17 |-> "5", e18 |-> "14", e19 |-> "7", e20 |-> "2",
            u1 |-> "1..9", u2 |-> "7", u3 |-> "1..=7", u4 |-> "7", u5 |-> ".."]
Piece(f, val) == CASE f.show = "no" -> <<"no", "">>
                   [] f.show \in Exprs \cup Unnamed -> <<"raw", ExprTab[f.show]>>
                   [] f.show \in {"plain", "arg", "named", "lossy"} -> <<"raw", Raw(f.ty, val)>>
                   [] f.show = "pad" -> <<"pad", Raw(f.ty, val)>>
                   [] f.show \in {"dbg", "argdbg"} -> <<"dbg", f.ty>>
                   [] f.show = "ptr" -> <<"ptr", "">>
Values(ty) == CASE ty \in {"OptE"} -> {"SomeBt", "Some", "None"} [] ty = "OptBt" -> {"Some", "None"} [] ty \in {"E", "BoxE", "BoxDyn"} \cup Dyns -> {"Bt", "No"} [] OTHER -> {"x"}
RECURSIVE Vals(_)
Vals(fs) == IF fs = <<>> THEN {<<>>} ELSE {<<x>> \o y : x \in Values(Head(fs).ty), y \in Vals(Tail(fs))}
Look(v, vals) ==
  [vals |-> vals, source |-> SourceOf(d, v, vals), bt |-> BacktraceAnswer(d, v, vals), tag |-> TagAnswer(d, v, vals),
   text |-> IF ~HasDisplay(d) THEN <<"none">> ELSE IF Transparent(d, v) THEN <<"inner">> ELSE IF Has(Eff(v), "fmt") THEN <<"fmt">>
            ELSE <<"msg">> \o (IF d.kind = "struct" \/ Has(v.at, "msg") THEN [j \in 1..Len(v.fs) |-> Piece(v.fs[j], vals[j])] ELSE <<>>)]
Why == {x \in {"path", "gma", "backtrace", "mixed"} : CASE x = "mixed" -> \E v \in Vs : Mixed(v)
                                              [] x = "path" -> \E v \in Vs : \E j \in Plain(v) : v.fs[j].ty \in PathTys
                                              [] x = "gma" -> \E v \in Vs : Prov(v) # <<>>
                                              [] x = "backtrace" -> "Backtrace" \in Mentions}
Show == /\ step = goal /\ step' = goal + 1 /\ UNCHANGED <<d, goal>>
        /\ PrintT("CASE " \o ToJson([d |-> d, why |-> Why, ok |-> {[std |-> k.std, gma |-> k.gma] : k \in {z \in AllCaps : AcceptedIn(z)}}, display |-> HasDisplay(d),
              froms |-> {[v |-> i, f |-> FromField(d.vs[i]), ty |-> InnerTy(d.vs[i].fs[FromField(d.vs[i])].ty)] : i \in Froms(d)},
              looks |-> [i \in 1..Len(d.vs) |-> {Look(d.vs[i], x) : x \in Vals(d.vs[i].fs)}]]))
Next == Change \/ Show

\* ---- properties --------------------------------------------------------------------------------------------------------
\* What the documentation says: paths in placeholders take std; backtraces take a compiler with generic member access, and std for one's own.
Told(k) == /\ "path" \in Why => k.std
           /\ "gma" \in Why => k.gma
           /\ "backtrace" \in Why => k.std
           /\ "mixed" \notin Why
Done == step = goal + 1
Gates == Done => \A k \in AllCaps : AcceptedIn(k) <=> Told(k)
\* More is never less, and neither parser refuses what the other accepts.
Monotone == Done => \A k, z \in AllCaps : (k.std => z.std) /\ (k.gma => z.gma) /\ AcceptedIn(k) => AcceptedIn(z)
\* A mention resolves to the same thing wherever it resolves.
OneMeaning == Done => \A k, z \in AllCaps : AcceptedIn(k) /\ AcceptedIn(z) => Resolved(k) = Resolved(z)
\* Everything but the ambiguous is supported somewhere.
Somewhere == Done /\ "mixed" \notin Why => \E k \in AllCaps : AcceptedIn(k)
======================================================================================
