---------------------------- MODULE Gen_Traversal ----------------------------
(* Shapes, traversals and the call (if any) whose result has another size.   *)
EXTENDS Gen
VARIABLE done
N == IF Thorough THEN 6 ELSE 4
Single == {<<[op |-> "t", a |-> <<is>>, b |-> <<n>>, c |-> w, d |-> bad]>> :
           is \in 1..3, n \in 0..N, w \in 0..3, bad \in -1..(N - 1)}
Multi == {<<[op |-> "t", a |-> is, b |-> [k \in 1..Len(is) |-> IF k = 1 THEN n ELSE IF k = odd THEN m ELSE n], c |-> w, d |-> bad]>> :
          is \in {<<1, 1>>, <<2, 1>>, <<3, 1, 2>>, <<1, 1, 1>>}, n \in 0..3, m \in 0..3, odd \in 2..3, w \in 0..1, bad \in -2..2}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in Single \cup Multi : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
