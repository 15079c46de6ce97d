------------------------------- MODULE Rotated -------------------------------
(***************************************************************************)
(* Symmetric integer matrices whose eigen decomposition is known exactly: a  *)
(* diagonal one turned by rational rotations (3-4-5 triangles), each turn    *)
(* multiplying the scale by 25 (values) and the frame by 5 (vectors).        *)
(***************************************************************************)
EXTENDS Integers, Sequences
Id(d) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 1 ELSE 0]]
Diag(d, v) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN v[i] ELSE 0]]
Turn(d, p, q, c, s) == [i \in 1..d |-> [j \in 1..d |->
    IF i = j /\ i \in {p, q} THEN c ELSE IF i = p /\ j = q THEN -s ELSE IF i = q /\ j = p THEN s ELSE IF i = j THEN 5 ELSE 0]]
Mul(d, a, b) == [i \in 1..d |-> [j \in 1..d |-> IF d = 2 THEN a[i][1] * b[1][j] + a[i][2] * b[2][j]
                                               ELSE a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
T(d, a) == [i \in 1..d |-> [j \in 1..d |-> a[j][i]]]
Pack(d, a) == IF d = 2 THEN <<a[1][1], a[1][2], a[2][2]>> ELSE <<a[1][1], a[1][2], a[1][3], a[2][2], a[2][3], a[3][3]>>
Turned(d, r, a) == Mul(d, Mul(d, r, a), T(d, r))
=============================================================================
