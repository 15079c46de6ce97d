------------------------------ MODULE Gen_Sort -------------------------------
(* Every arrangement of few values (from just below minus zero up) and comparator. *)
EXTENDS Gen
VARIABLE done
Cs == UNION {{<<[op |-> o, a |-> v, b |-> 1, c |-> 1]>> : v \in [1..n -> 0..3]} : o \in {"default", "desc", "sign"}, n \in 0..(IF Thorough THEN 6 ELSE 4)}
Cv == UNION {{<<[op |-> o, a |-> v, b |-> 2, c |-> 2]>> : v \in [1..(2 * n) -> 0..1]} : o \in {"default", "revlex", "asc", "less"}, n \in 0..(IF Thorough THEN 4 ELSE 3)}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in Cs \cup Cv : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
