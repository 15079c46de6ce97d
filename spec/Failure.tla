------------------------------ MODULE Failure -------------------------------
(***************************************************************************)
(* C27: an operation calls the functions it was given one call after the     *)
(* other. Should a call fail, that is the last one, and its failure is how    *)
(* the operation ends.                                                        *)
(***************************************************************************)
EXTENDS Series
NoFailure == [kind |-> -1, id |-> 0]
\* The calls of a run in which the k-th of calls fails (it may never come to that).
Reaches(calls, k) == k \in 1..Len(calls)
Until(calls, k) == IF Reaches(calls, k) THEN SubSeq(calls, 1, k) ELSE calls
\* How that run ends, for its caller.
Ending(calls, k, thrown) == IF Reaches(calls, k) THEN thrown ELSE NoFailure
=============================================================================
