----------------------------- MODULE Gen_Overlap -----------------------------
(* Nestings: every tree of calls of the given size (as the sequence of their   *)
(* depths), of three operations, or the same one everywhere.                   *)
EXTENDS Gen
VARIABLE hist
Deepest == 3
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E d \in 1..Deepest, f \in 0..2 :
              /\ (IF hist = <<>> THEN d = 1 ELSE d \in 2..(hist[Len(hist)].a + 1))
              /\ hist' = Append(hist, [op |-> "call", a |-> d, b |-> f])
Spec == Init /\ [][Next]_hist
Printed == Len(hist) = Depth => Emit(hist)
=============================================================================
