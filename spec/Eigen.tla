-------------------------------- MODULE Eigen --------------------------------
(***************************************************************************)
(* C18 (and C05): what makes a list of values and vectors the eigen         *)
(* decomposition of a symmetric matrix, in fixed point: the matrix in        *)
(* integers, values in thousandths, vectors in ten-thousandths.              *)
(***************************************************************************)
EXTENDS Series
\* Packed upper triangle -> entry (i, j).
Packed(d, i, j) == LET a == Min2(i, j) b == Max2(i, j) IN (a - 1) * d - ((a - 1) * (a - 2)) \div 2 + (b - a + 1)
Entry(d, m, i, j) == m[Packed(d, i, j)]
OffDiag(d, m) == SumSeq([k \in 1..(d * d) |->
    LET i == (k - 1) \div d + 1 j == ((k - 1) % d) + 1 IN IF i < j THEN Abs(Entry(d, m, i, j)) ELSE 0])
Size1(d, m) == SumSeq([k \in 1..(d * d) |-> Abs(Entry(d, m, (k - 1) \div d + 1, ((k - 1) % d) + 1))])
Trace0(d, m) == SumSeq([i \in 1..d |-> Entry(d, m, i, i)])

Descending(val, slack) == \A k \in 2..Len(val) : val[k - 1] + slack >= val[k]
Unit(v) == Abs(SumSeq([k \in 1..Len(v) |-> v[k] * v[k]]) - 100000000) <= 40000
Orthogonal(v, w) == Abs(SumSeq([k \in 1..Len(v) |-> v[k] * w[k]])) <= 40000
\* |M v - lambda v|, component by component, at most 0.6 % of the off-diagonal
\* (where the 3D solver stops; one rotation is exact in 2D) plus rounding. Scale 10^4 on both sides.
Pair(d, m, val, v) ==
    \A i \in 1..d :
        LET mv == SumSeq([j \in 1..d |-> Entry(d, m, i, j) * v[j]])
            lv == (val \div 1000) * v[i] + ((val % 1000) * v[i]) \div 1000
        IN Abs(mv - lv) <= (IF d = 2 THEN 0 ELSE 60 * OffDiag(d, m)) + Size1(d, m) + 20
Trace1(d, m, val) == Abs(SumSeq(val) - 1000 * Trace0(d, m)) <= d + 1
Decomposed(d, m, val, vecs) ==
    /\ Len(val) = d /\ Len(vecs) = d /\ \A k \in 1..d : Len(vecs[k]) = d
    /\ Descending(val, 0) /\ Trace1(d, m, val)
    /\ \A k \in 1..d : Unit(vecs[k]) /\ Pair(d, m, val[k], vecs[k])
    /\ \A k \in 1..d : \A q \in 1..(k - 1) : Orthogonal(vecs[k], vecs[q])
\* Two decompositions of one matrix agree: values, and (up to sign) the vectors
\* of values well apart from the others.
Apart(d, m, val, k) == \A q \in 1..d : q # k => Abs(val[q] - val[k]) > 100 * Size1(d, m)
Along(v, w, t) == (\A i \in 1..Len(v) : Abs(v[i] - w[i]) <= t) \/ (\A i \in 1..Len(v) : Abs(v[i] + w[i]) <= t)
Agree(d, m, val, vecs, val2, vecs2) ==
    \A k \in 1..d : Abs(val[k] - val2[k]) <= 1 /\ (Apart(d, m, val, k) => Along(vecs[k], vecs2[k], 2))
\* Close to values known exactly.
Near(d, m, val, want) == \A k \in 1..d : Abs(val[k] - 1000 * want[k]) <= (IF d = 2 THEN 0 ELSE 6 * OffDiag(d, m)) + 1
=============================================================================
