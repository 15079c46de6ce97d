------------------------------ MODULE Gen_Eigen ------------------------------
(* Matrices with known eigen values: every short sequence of rotations of a    *)
(* few diagonal ones; and every matrix of few small entries.                   *)
EXTENDS Gen, Rotated
VARIABLE done
Cs == {<<3, 4>>, <<4, -3>>, <<-3, 4>>, <<-4, -3>>, <<5, 0>>}
V2 == {<<7, 3>>, <<2, 2>>, <<0, -5>>, <<40, 1>>, <<9, -9>>, <<0, 0>>, <<-1, -2>>}
V3 == {<<7, 3, 1>>, <<2, 2, -2>>, <<4, -1, -1>>, <<5, 0, -5>>, <<20, 2, 1>>, <<0, -1, -30>>, <<100, 99, 98>>, <<3, 3, 3>>}
Pl == {<<1, 2>>, <<1, 3>>, <<2, 3>>}
M2 == {[v |-> [k \in 1..2 |-> 25 * v[k]], m |-> Pack(2, Turned(2, Turn(2, 1, 2, c[1], c[2]), Diag(2, v)))] : v \in V2, c \in Cs}
M31(v) == {Turned(3, Turn(3, p[1], p[2], c[1], c[2]), Diag(3, v)) : p \in Pl, c \in Cs}
M3 == UNION {{[v |-> [k \in 1..3 |-> 625 * v[k]], m |-> Pack(3, Turned(3, Turn(3, p[1], p[2], c[1], c[2]), a))] : a \in M31(v), p \in Pl, c \in (IF Thorough THEN Cs ELSE {<<3, 4>>, <<4, -3>>, <<5, 0>>})} : v \in V3}
N == IF Thorough THEN -2..2 ELSE -1..1
All == {<<[op |-> "known", a |-> x.m, b |-> x.v]>> : x \in M2 \cup M3}
  \cup {<<[op |-> "plain", a |-> m]>> : m \in [1..3 -> -3..3] \cup [1..6 -> N]}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in All : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
