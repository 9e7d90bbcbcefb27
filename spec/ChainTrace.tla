------------------------------- MODULE ChainTrace -------------------------------
(* A recorded execution is a behaviour of Chain: every step and everything observed after it.             *)
EXTENDS Chain
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE i
Matches(e) == e.texts = Texts' /\ e.bt = Bt' /\ e.tag = Tag'
Init == i = 1 /\ chain = <<>> /\ steps = 0
Next == /\ i <= Len(Trace)
        /\ LET e == Trace[i] IN (IF e.start THEN Begin(e.k) ELSE Wrap(e.k)) /\ Matches(e)
        /\ i' = i + 1
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
Stuck == i   \* where a rejected trace stops
=============================================================================
