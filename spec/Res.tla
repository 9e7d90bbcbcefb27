---------------------------------- MODULE Res ----------------------------------
(* Which value a placeholder means: explicit argument, field, or what the scope offers.                  *)
(* A message is written placeholder by placeholder on a container with extra arguments already chosen.   *)
EXTENDS FmtGrammar, FmtScan, FiniteSets, Json, SequencesExt

CONSTANTS MaxPh, Tier

VARIABLES shape, named, pos, msg, n, shown
vars == <<shape, named, pos, msg, n, shown>>

Shape(kind, fs) == [kind |-> kind, fields |-> fs]
Shapes == {Shape("struct", <<>>), Shape("struct", <<"a">>), Shape("vstruct", <<"a", "b">>), Shape("struct", <<"b", "type", "a">>),
           Shape("tuple", <<>>), Shape("tuple", <<"0">>), Shape("vtuple", <<"0", "1">>), Shape("unit", <<>>), Shape("vunit", <<>>)}
Unnamed == shape.kind \in {"tuple", "vtuple"} /\ shape.fields # <<>>
\* Names an argument may have: a field's, another, a constant's, a generated local's, a keyword.
ArgNm == {"a", "b", "c", "w", "type"} \cup (IF Tier = "thorough" THEN {"_0", "__field_a", "__display_a", "__field0", "f"} ELSE {"__display_a", "_0"})
ValueOf(x) == IF x = "w" THEN "7" ELSE "arg_" \o x
ArgOrder == SetToSeq(ArgNm)
ArgSets == {<<>>} \cup {<<x>> : x \in ArgNm} \cup {<<ArgOrder[i], ArgOrder[j]>> : i, j \in 1..Len(ArgOrder)}
PosSets == {<<>>, <<"p0">>, <<"7", "p1">>, <<"p0", "p1">>}
Distinct(q) == Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)
Consts == {"c", "k"}

Ctx == [unnamed |-> Unnamed, fields |-> shape.fields, named |-> [i \in 1..Len(named) |-> [n |-> named[i], v |-> ValueOf(named[i])]],
        pos |-> pos, scope |-> Consts, paths |-> {}]

Args == {"", "0", "1", "a", "b", "c", "k"} \cup ({named[i] : i \in 1..Len(named)} \ {"w"}) \cup (IF Tier = "thorough" THEN {"2", "type"} ELSE {})
Specs == {"", ":?", ":>9", ":w$", ":0$", ":.*", ":p"} \cup (IF Tier = "thorough" THEN {":#x", ":1$.w$", ": ^5", " "} ELSE {})

\* A placeholder that can mean something here.
Means(a) == \/ a = ""
            \/ Ch(a, 1) \in Digit /\ (LookupPos(Ctx, DigitVal(a)).ok \/ (Unnamed /\ pos # <<>>))
            \/ Ch(a, 1) \notin Digit /\ Lookup(Ctx, a).ok
CountOk(s) == /\ (s \in {":w$", ":1$.w$"} => InSeq("w", named)) /\ (s \in {":0$", ":.*"} => InSeq("7", pos))
Init == /\ shape \in Shapes /\ named \in {q \in ArgSets : Distinct(q) /\ (Len(q) = 2 => \E i, j \in 1..Len(ArgOrder) : i < j /\ q = <<ArgOrder[i], ArgOrder[j]>>)} /\ pos \in PosSets /\ msg = "" /\ n = 0 /\ shown = FALSE
Add ==  /\ n < MaxPh /\ ~shown
        /\ \E a \in {x \in Args : Means(x)}, s \in {x \in Specs : CountOk(x)} : msg' = msg \o "{" \o a \o s \o "}"
        /\ n' = n + 1 /\ UNCHANGED <<shape, named, pos, shown>>

Parsed == Pieces(msg, 1)
Ph == {Parsed.seq[i] : i \in {j \in 1..Len(Parsed.seq) : Parsed.seq[j].k = "ph"}}
Numbered == \E p \in Ph : p.arg.k = "pos"
Ambiguous == Unnamed /\ pos # <<>> /\ Numbered

Counts(p) == {p.spec.width, p.spec.prec}
UsesName(x) == \E p \in Ph : (p.arg.k = "id" /\ p.arg.id = x) \/ (\E c \in Counts(p) : c.k = "id" /\ c.id = x)
UsesPos(i) == \/ \E p \in Ph : \/ (p.arg.k = "pos" /\ p.arg.n = i /\ ~Unnamed)
                               \/ \E c \in Counts(p) : c.k = "pos" /\ c.n = i
              \/ i < Meaning(Ctx, msg).used
AllUsed == (\A i \in 1..Len(named) : UsesName(named[i])) /\ (\A i \in 0..(Len(pos) - 1) : UsesPos(i))
\* Constants are probes: they cannot be counts.
Outcome == IF Ambiguous THEN "REJECT" ELSE LET r == Meaning(Ctx, msg) IN IF r.ok /\ AllUsed THEN r.t ELSE ""

Show == /\ n > 0 /\ ~shown /\ Outcome # "" /\ shown' = TRUE /\ UNCHANGED <<shape, named, pos, msg, n>>
        /\ PrintT("CASE " \o ToJson([kind |-> shape.kind, fields |-> shape.fields, named |-> named, pos |-> pos, m |-> msg, t |-> Outcome]))
Next == Add \/ Show

\* The scanner keeps the meaning whatever the arguments are called.
Explicit == \A p \in Ph : p.arg.k # "next" /\ p.spec.prec.k # "star" /\ (p.arg.k = "pos" => Unnamed)
ScannerRefinesGrammar ==
    (shown /\ Outcome \notin {"", "REJECT"} /\ Explicit) =>
        LET sc == Scan(Ctx, msg) IN sc.ok /\ RewrittenMeaning(Ctx, sc) = Outcome
\* An explicit argument always wins over a field of its name; a field never depends on the arguments.
ExplicitWins ==
    shown => \A p \in Ph : (p.arg.k = "id" /\ InSeq(p.arg.id, named)) => Lookup(Ctx, p.arg.id).o = "n"
FieldElse ==
    shown => \A p \in Ph : (p.arg.k = "id" /\ ~InSeq(p.arg.id, named) /\ ~Unnamed /\ InSeq(p.arg.id, shape.fields)) => Lookup(Ctx, p.arg.id).o = "f"
=============================================================================
