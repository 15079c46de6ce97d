-------------------------------- MODULE Memo ---------------------------------
(***************************************************************************)
(* C13: a memoized function. An input is a whole Serie: item size, count,  *)
(* dimension and every value. The function itself may answer differently    *)
(* each time it is evaluated, so a remembered answer can be told from a new *)
(* evaluation.                                                              *)
(***************************************************************************)
EXTENDS Series
VARIABLES cache     \* the inputs answered since the last clear, with the answers

Known(in) == in \in DOMAIN cache
\* A call: ev is the sequence of evaluations it made, ret what it returned.
Hit(in, ev, ret) == Known(in) /\ ev = <<>> /\ ret = cache[in] /\ UNCHANGED cache
Miss(in, ev, ret) == /\ ~Known(in) /\ Len(ev) = 1 /\ ev[1].in = in /\ ev[1].ok
                     /\ ret = ev[1].out /\ cache' = (in :> ret) @@ cache
Fail(in, ev) == ~Known(in) /\ Len(ev) = 1 /\ ev[1].in = in /\ ~ev[1].ok /\ UNCHANGED cache
Clear == cache' = <<>>
=============================================================================
