-------------------------------- MODULE ChainGen --------------------------------
EXTENDS Chain
CONSTANTS MaxDepth, Pick   \* Pick: "all" or "few" kinds
VARIABLE done
vars == <<chain, steps, done>>
Few == {"s_from", "s_optnone", "s_trbt", "s_fwd", "e_tr", "e_auto", "e_expl", "e_own", "e_fwdopt", "e_recurb", "e2_trbt", "e_hide"}
UsedLeaves == IF Pick = "all" THEN DOMAIN Leaves ELSE {"plain", "giver", "leafenumbt"}
Used == IF Pick = "all" THEN DOMAIN Kinds ELSE Few
Init == \E k \in UsedLeaves : chain = <<L(k, 1)>> /\ steps = 1 /\ done = FALSE
Grow == ~done /\ steps <= MaxDepth /\ \E k \in Used : Wrap(k) /\ UNCHANGED done
Look == /\ ~done /\ done' = TRUE /\ UNCHANGED <<chain, steps>>
        /\ PrintT("CASE " \o ToJson([c |-> [i \in 1..Len(SelectSeq(chain, LAMBDA x : x.n # 0)) |-> SelectSeq(chain, LAMBDA x : x.n # 0)[i].k],
                                     t |-> Texts, b |-> Bt, g |-> Tag]))
Next == Grow \/ Look
\* A step never changes what was there: the old chain shows through every new layer that has a source.
Persists == [][(steps' = steps + 1) => LET old == Texts new == Texts' IN
                 IF Spec(chain'[Len(chain')].k).src = "none" THEN Len(new) = 1 ELSE Len(new) >= Len(old) /\ SubSeq(new, Len(new) - Len(old) + 1, Len(new)) = old]_vars
=============================================================================
