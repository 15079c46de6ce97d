------------------------------ MODULE Gen_Split ------------------------------
EXTENDS Gen
VARIABLE done
N == IF Thorough THEN 12 ELSE 7
M == IF Thorough THEN 5 ELSE 3
P1 == {<<[op |-> "partition_n", a |-> <<is>>, b |-> <<n>>, c |-> p]>> : is \in 1..2, n \in 0..N, p \in 0..(N + 2)}
P2 == {<<[op |-> "partition_n", a |-> <<1, 2>>, b |-> <<n, m>>, c |-> p]>> : n \in 0..4, m \in 0..4, p \in 0..6}
C == {<<[op |-> o, a |-> [k \in 1..Len(n) |-> IF k = odd THEN 3 ELSE is], b |-> n, c |-> f]>> :
      o \in {"concat", "merge"}, is \in 1..2, odd \in {2, 9}, f \in 0..1, n \in [1..3 -> 0..M] \cup [1..1 -> 0..2] \cup [1..2 -> 0..3] \cup (IF Thorough THEN [1..4 -> 0..2] ELSE {})}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in P1 \cup P2 \cup C : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
