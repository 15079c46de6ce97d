--------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* C24: Vectors (sequences) and Matrices ([m, v]: m rows of m row-major      *)
(* entries), each holding its own integers.                                  *)
(***************************************************************************)
EXTENDS Algebra
Sum2(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
Sub2(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
Mul2(a, b) == [k \in 1..Len(a) |-> a[k] * b[k]]
Times(a, x) == [k \in 1..Len(a) |-> a[k] * x]
\* A whole root, if there is one.
SquareSide(n) == CHOOSE m \in 0..n : m * m = n
PackedSide(n) == CHOOSE m \in 0..n : m * (m + 1) = 2 * n
FullMatrix(v) == [m |-> SquareSide(Len(v)), v |-> v]
SymMatrix(p) == LET d == PackedSide(Len(p)) IN [m |-> d, v |-> Unpack(d, p)]
T(a) == [m |-> a.m, v |-> Transposed(a.m, a.v)]
MM(a, b) == [m |-> a.m, v |-> MatMul(a.m, a.v, b.v)]
MV(a, x) == [i \in 1..a.m |-> SumSeq([j \in 1..a.m |-> Ent(a.m, a.v, i, j) * x[j]])]
TraceOf(a) == SumSeq([i \in 1..a.m |-> Ent(a.m, a.v, i, i)])
Symmetric(a) == \A i, j \in 1..a.m : Ent(a.m, a.v, i, j) = Ent(a.m, a.v, j, i)
\* the rows of the upper triangle, one after the other
UpperPack(a) == FoldLeft(LAMBDA acc, i : acc \o SubSeq(a.v, (i - 1) * a.m + i, i * a.m), <<>>, [i \in 1..a.m |-> i])
Stored(a) == IF Symmetric(a) THEN UpperPack(a) ELSE a.v
=============================================================================
