-------------------------------- MODULE EnumMsg --------------------------------
(* An enum written variant by variant; every variant shows itself with its own attribute or the enum's.   *)
(*   variant  [at, st, fs]   at: the display attribute; st, fs: style and field names in order             *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS MaxVariants, Tier, Small

VARIABLES e, vs, phase
vars == <<e, vs, phase>>

Shape(st, fs) == [st |-> st, fs |-> fs]
Shapes == {Shape("unit", <<>>), Shape("tuple", <<"0">>), Shape("named", <<"a">>), Shape("named", <<"b", "a">>)} \cup
          (IF Small THEN {} ELSE {Shape("tuple", <<>>), Shape("named", <<>>), Shape("tuple", <<"0", "1">>), Shape("tuple", <<"0", "1", "2">>),
                                  Shape("named", <<"a", "b">>), Shape("named", <<"b", "type", "a">>), Shape("named", <<"source", "a">>)})
\* lit: text only   all: every field   rev: every field reversed, {:?}   arg: explicit arguments   dot: .field arguments
\* esc: braces and a width   scope: a name from the scope   shadow: an argument with a field's name
\* fa / f0: {a} / {0}   dota / dot0: .a / .0 as argument
VarAts == {"none", "lit", "all", "rev", "dot", "transparent", "fmt"} \cup (IF Small THEN {} ELSE {"arg", "esc", "shadow"})
EnumAts == {"none", "lit", "fa", "f0", "dota", "dot0", "scope", "shadow", "transparent", "fmt"}
Msg(at) == at \notin {"none", "transparent", "fmt"}

Inherits(v) == v.at = "none"
Eff(v) == IF Inherits(v) THEN e ELSE v.at
In(x, q) == \E i \in 1..Len(q) : q[i] = x
\* What ordinary name resolution makes of the attribute on this variant's fields.
Writable(at, v) == CASE at \in {"fa", "dota"} -> In("a", v.fs)
                     [] at \in {"f0", "dot0"} -> In("0", v.fs)
                     [] at = "dot" -> v.fs # <<>>
                     [] OTHER -> TRUE

Init == e \in EnumAts /\ vs = <<>> /\ phase = "write"
AddVariant ==
    /\ phase = "write" /\ Len(vs) < MaxVariants
    /\ \E s \in Shapes, at \in VarAts :
         LET v == [at |-> at, st |-> s.st, fs |-> s.fs] IN
         /\ Writable(IF at = "none" THEN e ELSE at, v)
         \* one formatting function serves every variant that inherits it
         /\ (at = "none" /\ e = "fmt") => \A i \in 1..Len(vs) : Inherits(vs[i]) => Len(vs[i].fs) = Len(s.fs)
         /\ vs' = Append(vs, v)
    /\ UNCHANGED <<e, phase>>

\* ---- the rules --------------------------------------------------------------------------------------------
Idx == 1..Len(vs)
HasText(i) == Eff(vs[i]) # "none"
DerivesText == e # "none" \/ (\E i \in Idx : Msg(vs[i].at) \/ vs[i].at = "fmt") \/ (\A i \in Idx : Eff(vs[i]) = "transparent")
Rules == (IF DerivesText /\ (\E i \in Idx : ~HasText(i)) THEN {"missing-text"} ELSE {})
         \cup (IF \E i \in Idx : Eff(vs[i]) = "transparent" /\ Len(vs[i].fs) # 1 THEN {"transparent-fields"} ELSE {})

\* ---- the text of a value of variant i, formatted with options fl ---------------------------------------------
Name(i, f) == "v" \o ToString(i) \o "." \o f
Probe(x, tr, fl) == "<" \o x \o ":" \o tr \o ":" \o fl \o ">"
Plain(i, f) == Probe(Name(i, f), "D", "")
RECURSIVE Cat(_, _)
Cat(f(_), n) == IF n = 0 THEN "" ELSE Cat(f, n - 1) \o f(n)
\* With an argument of the field's name the argument wins.
Text(i, fl) ==
    LET v == vs[i] at == Eff(v) own == IF Inherits(v) THEN "E" ELSE "V" \o ToString(i) n == Len(v.fs) IN
    CASE at = "lit" -> own \o " lit"
      [] at = "all" -> own \o " " \o Cat(LAMBDA k : Plain(i, v.fs[k]), n)
      [] at = "rev" -> own \o " " \o Cat(LAMBDA k : Probe(Name(i, v.fs[n + 1 - k]), "?", "171"), n)
      [] at = "dot" -> own \o " " \o Cat(LAMBDA k : Plain(i, v.fs[k]), n) \o "end"
      [] at = "arg" -> own \o " 7 seven"
      [] at = "esc" -> "{" \o own \o "}   x"
      [] at = "shadow" -> own \o " " \o Probe("arg", "D", "")
      [] at = "scope" -> own \o " " \o Probe("k", "D", "")
      [] at \in {"fa", "dota"} -> own \o " " \o Plain(i, "a")
      [] at \in {"f0", "dot0"} -> own \o " " \o Plain(i, "0")
      [] at = "transparent" -> IF n = 0 THEN "" ELSE Probe(Name(i, v.fs[1]), "D", fl)
      [] at = "fmt" -> "fmt" \o ToString(n) \o Cat(LAMBDA k : Probe(Name(i, v.fs[k]), "D", fl), n)
      [] OTHER -> ""

Flags == <<"", " >w9", " ^+#0w8.3">>
Accepted == Rules = {}
Write == /\ phase = "write" /\ phase' = "done" /\ UNCHANGED <<e, vs>>
         /\ PrintT("CASE " \o ToJson([e |-> e, vs |-> vs, rules |-> Rules, display |-> DerivesText,
                texts |-> IF Accepted /\ DerivesText THEN [i \in Idx |-> [k \in 1..Len(Flags) |-> Text(i, Flags[k])]] ELSE <<>>]))
Next == AddVariant \/ Write

\* ---- properties ---------------------------------------------------------------------------------------------
Done == phase = "done"
TextForAllOrNone == (Done /\ Accepted /\ DerivesText) => \A i \in Idx : HasText(i)
\* Adding or changing another variant never changes a text (it may only make the enum unacceptable).
Independent ==
    [][(phase = "write" /\ phase' = "write") => \A i \in Idx : HasText(i) => Text(i, "") = Text(i, "")']_vars
Unmarked == (Done /\ Accepted /\ ~DerivesText) => (e = "none" /\ \E i \in Idx : ~HasText(i))
=============================================================================
