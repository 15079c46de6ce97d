------------------------------ MODULE Overlap -------------------------------
(***************************************************************************)
(* C28: calls that overlap, one inside another (made by a function given to   *)
(* the other) or at the same time in several threads. The state is which      *)
(* calls are open in which thread; a call answers as it does alone.           *)
(***************************************************************************)
EXTENDS Series
Begins(open, t, c) == [open EXCEPT ![t] = Append(@, c)]
CanEnd(open, t, c) == open[t] # <<>> /\ Last(open[t]) = c
Ends(open, t) == [open EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Idle(open) == \A t \in DOMAIN open : open[t] = <<>>
=============================================================================
