----------------------------- MODULE Gen_Algebra -----------------------------
(* Every small matrix of every storage, and every pair of small vectors.      *)
EXTENDS Gen
VARIABLE done
C(op, a, b) == <<[op |-> op, a |-> a, b |-> b]>>
All == {C("m", v, 2) : v \in [1..3 -> -1..2] \cup [1..4 -> -1..2]}
  \cup {C("m", v, 3) : v \in [1..6 -> (IF Thorough THEN -1..2 ELSE -1..1)]}
  \cup {C("m", v, 3) : v \in [1..9 -> 0..1]}
  \cup {C("v", v, 3) : v \in [1..6 -> (IF Thorough THEN -1..2 ELSE {-1, 0, 2})]}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in All : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
