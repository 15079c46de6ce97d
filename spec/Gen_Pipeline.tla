---------------------------- MODULE Gen_Pipeline -----------------------------
(* Every way to group up to N operations into pipes and compositions, as     *)
(* prefix notation: -10 - n a pipe of n, -20 - n a composition of n, k >= 0  *)
(* an operation.                                                             *)
EXTENDS Gen
VARIABLE done
N == IF Thorough THEN 6 ELSE 5
\* Shapes with exactly n leaves (leaves numbered later, by position).
RECURSIVE Shapes(_), Splits(_, _)
\* Sequences of k shapes with n leaves in all.
Splits(n, k) == IF k = 1 THEN Shapes(n)
                ELSE UNION {{a \o b : a \in Shapes(m), b \in Splits(n - m, k - 1)} : m \in 1..(n - k + 1)}
Shapes(n) == IF n = 1 THEN {<<0>>}
             ELSE UNION {UNION {{<<h>> \o q : q \in Splits(n, k)} : h \in {-10 - k, -20 - k}} : k \in 2..(IF n < 4 THEN n ELSE 3)}
All == {<<[op |-> "p", a |-> s]>> : s \in UNION {Shapes(n) : n \in 1..N}} \cup {<<[op |-> "p", a |-> <<-11>> \o s]>> : s \in Shapes(1) \cup Shapes(3)}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in All : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
