---------------------------------- MODULE Chain ----------------------------------
(* A chain of errors, grown from the inside out one wrapping step at a time, and what can be seen of it.   *)
(* A layer's table entry says how it treats its source and a backtrace request:                            *)
(*   src  "field" shows it   "tr" is transparent   "none" hides it or is empty                             *)
(*   bt   "none" answers nothing   "own"   "fwd" passes on   "both" passes on, then offers its own          *)
(*   num  the message carries the number of the step    leaf: an innermost error                           *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC, SequencesExt

K(src, bt, num, text) == [src |-> src, bt |-> bt, num |-> num, text |-> text]
Leaves == [
    plain |-> K("none", "none", TRUE, "plain"), giver |-> K("none", "own", TRUE, "giver"), leaf |-> K("none", "none", TRUE, "leaf"),
    leafbt |-> K("none", "own", TRUE, "leafbt"), leafenum |-> K("none", "none", TRUE, "leafenum"), leafenumbt |-> K("none", "own", TRUE, "leafenumbt")]
Kinds == [
    s_source |-> K("field", "none", TRUE, "s_source"), s_named |-> K("field", "none", TRUE, "s_named"), s_from |-> K("field", "none", FALSE, "s_from"),
    s_opt |-> K("field", "none", TRUE, "s_opt"), s_optnone |-> K("none", "none", TRUE, "s_opt"), s_raw |-> K("none", "none", TRUE, "s_raw"),
    s_hide |-> K("none", "none", TRUE, "s_hide"), s_arc |-> K("field", "none", TRUE, "s_arc"), s_ref |-> K("field", "none", TRUE, "s_ref"),
    s_tr |-> K("tr", "none", FALSE, ""), s_trfrom |-> K("tr", "none", FALSE, ""), s_trbt |-> K("tr", "fwd", FALSE, ""), s_trname |-> K("tr", "none", FALSE, ""),
    s_auto |-> K("field", "both", TRUE, "s_auto"), s_expl |-> K("field", "both", TRUE, "s_expl"), s_optbt |-> K("field", "both", TRUE, "s_optbt"),
    s_optbtnone |-> K("field", "fwd", TRUE, "s_optbt"), s_fwd |-> K("field", "fwd", TRUE, "s_fwd"), s_fwdopt |-> K("field", "fwd", TRUE, "s_fwdopt"),
    s_own |-> K("none", "own", TRUE, "s_own"), s_frombt |-> K("field", "both", FALSE, "s_frombt"),
    s_gen |-> K("field", "none", TRUE, "s_gen"), s_genarc |-> K("field", "none", TRUE, "s_gen"),
    e_source |-> K("field", "none", TRUE, "e_source"), e_named |-> K("field", "none", TRUE, "e_named"), e_opt |-> K("field", "none", TRUE, "e_opt"),
    e_optnone |-> K("none", "none", TRUE, "e_opt"), e_hide |-> K("none", "none", TRUE, "e_hide"), e_tr |-> K("tr", "none", FALSE, ""),
    e_from |-> K("field", "none", FALSE, "e_from"), e_arc |-> K("field", "none", TRUE, "e_arc"), e_auto |-> K("field", "both", TRUE, "e_auto"),
    e_expl |-> K("field", "own", TRUE, "e_expl"), e_own |-> K("none", "own", TRUE, "e_own"), e_fwd |-> K("field", "fwd", TRUE, "e_fwd"),
    e_fwdopt |-> K("field", "fwd", TRUE, "e_fwdopt"), e_recur |-> K("field", "none", TRUE, "e_recur"), e_recurb |-> K("field", "fwd", TRUE, "e_recurb"),
    e2_trbt |-> K("tr", "fwd", FALSE, ""), e2_next |-> K("tr", "none", FALSE, ""), e3_frombt |-> K("field", "own", FALSE, "e_frombt"),
    s_dyn |-> K("field", "none", TRUE, "s_dyn"), s_send |-> K("field", "none", TRUE, "s_send"), s_unw |-> K("field", "none", TRUE, "s_unw"),
    s_sendopt |-> K("field", "none", TRUE, "s_sendopt"), s_rc |-> K("field", "none", TRUE, "s_rc"),
    s_trsend |-> K("tr", "none", FALSE, ""), s_trunw |-> K("tr", "none", FALSE, ""), s_trdyn |-> K("tr", "fwd", FALSE, ""),
    s_fwddyn |-> K("field", "fwd", TRUE, "s_fwddyn"), s_fwdsend |-> K("field", "fwd", TRUE, "s_fwdsend"), s_autounw |-> K("field", "both", TRUE, "s_autounw"),
    e_dyn |-> K("field", "none", TRUE, "e_dyn"), e_sendopt |-> K("field", "none", TRUE, "e_sendopt"), e_unw |-> K("field", "fwd", TRUE, "e_unw"),
    e_fromsend |-> K("field", "none", FALSE, "e_fromsend"), e_trunw |-> K("tr", "fwd", FALSE, ""), e_trdyn |-> K("tr", "none", FALSE, ""),
    e_autodyn |-> K("field", "both", TRUE, "e_autodyn"),
    b_trdyn |-> K("tr", "none", FALSE, ""), b_trsend |-> K("tr", "none", FALSE, ""), b_trsync |-> K("tr", "none", FALSE, ""), b_trunw |-> K("tr", "none", FALSE, ""),
    b_trref |-> K("tr", "none", FALSE, ""), b_trgen |-> K("tr", "none", FALSE, ""), b_edyn |-> K("tr", "none", FALSE, ""), b_esend |-> K("tr", "none", FALSE, ""),
    b_esync |-> K("tr", "none", FALSE, ""), b_eref |-> K("tr", "none", FALSE, ""), b_egen |-> K("tr", "none", FALSE, "")]
IsLeaf(k) == k \in DOMAIN Leaves
Spec(k) == IF IsLeaf(k) THEN Leaves[k] ELSE Kinds[k]

VARIABLES chain, steps     \* chain: what is nested, innermost first, [k, n]; n is the step that built it (0: built in passing)
L(k, n) == [k |-> k, n |-> n]

EType(k) == k \in {"e_source", "e_named", "e_opt", "e_optnone", "e_hide", "e_tr", "e_from", "e_arc", "e_auto", "e_expl", "e_own", "e_fwd", "e_fwdopt", "e_recur", "e_recurb"}
\* What one step adds: some kinds need their content to be of a certain type and wrap it transparently first.
Added(c, k, n) ==
    CASE k \in {"e_recur", "e_recurb"} /\ ~EType(c[Len(c)].k) -> <<L("e_tr", 0), L(k, n)>>
      [] k = "e2_next" /\ c[Len(c)].k \notin {"e2_next", "e2_trbt"} -> <<L("e_tr", 0), L(k, n)>>
      [] k = "s_gen" -> <<L("s_from", 0), L(k, n)>>
      [] OTHER -> <<L(k, n)>>

TextAt(l) == LET s == Spec(l.k) IN IF s.num THEN s.text \o "#" \o ToString(l.n) ELSE s.text
\* What walking source() meets, outermost first.
RECURSIVE Walk(_, _)
Walk(c, n) ==
    IF n = 0 THEN <<>>
    ELSE LET s == Spec(c[n].k) IN
         CASE s.src = "tr" -> Walk(c, n - 1)
           [] s.src = "none" -> <<TextAt(c[n])>>
           [] OTHER -> <<TextAt(c[n])>> \o Walk(c, n - 1)
RECURSIVE Answer(_, _)
Answer(c, n) ==
    IF n = 0 THEN 0
    ELSE LET s == Spec(c[n].k) IN
         CASE s.bt = "none" -> 0 [] s.bt = "own" -> c[n].n [] s.bt = "fwd" -> Answer(c, n - 1)
           [] OTHER -> LET below == Answer(c, n - 1) IN IF below # 0 THEN below ELSE c[n].n
\* Any other request is only ever passed on; the plain provider at the bottom answers it.
RECURSIVE TagOf(_, _)
TagOf(c, n) == IF n = 0 THEN 0 ELSE IF c[n].k = "giver" THEN c[n].n ELSE IF Spec(c[n].k).bt \in {"fwd", "both"} THEN TagOf(c, n - 1) ELSE 0

Texts == Walk(chain, Len(chain))
Bt == Answer(chain, Len(chain))
Tag == TagOf(chain, Len(chain))

Begin(k) == chain' = <<L(k, 1)>> /\ steps' = 1
Wrap(k) == chain' = chain \o Added(chain, k, steps + 1) /\ steps' = steps + 1

\* ---- properties ---------------------------------------------------------------------------------------------
\* The walk is the non-transparent layers from outside in, up to the first that has no source; each once, none skipped.
Shown == {i \in 1..Len(chain) : Spec(chain[i].k).src # "tr" /\ \A j \in (i + 1)..Len(chain) : Spec(chain[j].k).src # "none"}
WalkIsTheShownLayers ==
    Len(chain) > 0 => Texts = Reverse([i \in 1..Cardinality(Shown) |-> TextAt(chain[CHOOSE x \in Shown : Cardinality({y \in Shown : y <= x}) = i])])
\* A backtrace is answered by a layer that every layer above passes the request on to.
AnswerIsReachable ==
    Bt # 0 => \E i \in 1..Len(chain) : /\ chain[i].n = Bt /\ Spec(chain[i].k).bt \in {"own", "both"}
                                        /\ \A j \in (i + 1)..Len(chain) : Spec(chain[j].k).bt \in {"fwd", "both"}
InnermostWins ==
    Bt # 0 => \A i \in 1..Len(chain) : (/\ Spec(chain[i].k).bt \in {"own", "both"}
                                        /\ \A j \in (i + 1)..Len(chain) : Spec(chain[j].k).bt \in {"fwd", "both"}) => (chain[i].n = 0 \/ chain[i].n >= Bt)
=============================================================================
