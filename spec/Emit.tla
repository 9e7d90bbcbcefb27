---------------------------------- MODULE Emit ----------------------------------
(* Rendering into a destination that may refuse, character by character.                                   *)
(*   budget  characters the destination takes before it refuses (Inf: never)                               *)
(*   bad     which field's own formatting fails, after one character: "none" "f" "nest"                     *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS MaxPieces, Tier

VARIABLES form, pieces, bad, budget, out, st
vars == <<form, pieces, bad, budget, out, st>>

Forms == {"struct", "tuple", "variant", "default", "fmt", "transparent", "boxed", "twice"}
Alphabet == {"lit", "esc", "str", "pad", "dbg", "own", "path", "nest", "arg", "num", "ptr"}
\* Unnamed fields have no names to be shown by an argument of the same text; the set is the same.
TextOf(p) == CASE p = "lit" -> "ab" [] p = "esc" -> "{}" [] p = "str" -> "xy" [] p = "pad" -> "  xy" [] p = "dbg" -> "\"xy\"" [] p = "own" -> "pq"
               [] p = "path" -> "/p" [] p = "nest" -> "in:pq" [] p = "arg" -> "pq." [] p = "num" -> "007" [] p = "ptr" -> "@f"
\* The characters a piece offers, and whether it fails after them.
Offers(p) == IF p \in {"own", "arg", "ptr"} /\ bad = "f" THEN [t |-> SubSeq(TextOf(p), 1, 1), err |-> TRUE]
             ELSE IF p = "nest" /\ bad = "nest" THEN [t |-> "in:p", err |-> TRUE]
             ELSE [t |-> TextOf(p), err |-> FALSE]

Init == /\ form \in Forms /\ pieces = <<>> /\ bad = "none" /\ budget = 0 /\ out = "" /\ st = "write"
Write == /\ st = "write" /\ Len(pieces) < MaxPieces /\ \E p \in Alphabet : pieces' = Append(pieces, p)
         /\ UNCHANGED <<form, bad, budget, out, st>>
Full == LET RECURSIVE F(_) F(i) == IF i > Len(pieces) THEN "" ELSE Offers(pieces[i]).t \o (IF Offers(pieces[i]).err THEN "" ELSE F(i + 1)) IN F(1)
Fails == \E i \in 1..Len(pieces) : Offers(pieces[i]).err
Break == /\ st = "write" /\ \E b \in {"none", "f", "nest"} : bad' = b
         /\ st' = "broken" /\ UNCHANGED <<form, pieces, budget, out>>
Limit == /\ st = "broken" /\ (bad # "none" => Fails)
         /\ \E n \in 0..(Len(Full) + 1) : budget' = n
         /\ st' = "run" /\ UNCHANGED <<form, pieces, bad, out>>
Put == /\ st = "run" /\ Len(out) < Len(Full) /\ Len(out) < budget
       /\ out' = out \o SubSeq(Full, Len(out) + 1, Len(out) + 1)
       /\ UNCHANGED <<form, pieces, bad, budget, st>>
Case(res) == PrintT("CASE " \o ToJson([form |-> form, pieces |-> pieces, bad |-> bad, budget |-> budget, out |-> out, res |-> res, full |-> Full]))
Refuse == /\ st = "run" /\ Len(out) < Len(Full) /\ Len(out) = budget /\ st' = "err" /\ UNCHANGED <<form, pieces, bad, budget, out>> /\ Case("err")
FieldFails == /\ st = "run" /\ Len(out) = Len(Full) /\ Fails /\ st' = "err" /\ UNCHANGED <<form, pieces, bad, budget, out>> /\ Case("err")
Finish == /\ st = "run" /\ Len(out) = Len(Full) /\ ~Fails /\ st' = "ok" /\ UNCHANGED <<form, pieces, bad, budget, out>> /\ Case("ok")
Next == Write \/ Break \/ Limit \/ Put \/ Refuse \/ FieldFails \/ Finish

\* ---- properties -----------------------------------------------------------------------------------------------
Prefix == out = SubSeq(Full, 1, Len(out))
OkMeansAll == st = "ok" => out = Full /\ ~Fails
ErrMeansRefused == st = "err" => (Len(out) = budget /\ budget < Len(Full)) \/ Fails
NothingAfter == [][st \notin {"err", "ok"}]_vars
=============================================================================
