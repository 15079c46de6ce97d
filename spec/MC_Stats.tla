------------------------------ MODULE MC_Stats -------------------------------
(* Statistics gathered one item at a time, in any order, end in what the      *)
(* operators say; quantiles are monotone from the minimum to the maximum and  *)
(* blind to the order of the items; bins and whiskers split the items.        *)
EXTENDS Stats, IOUtils
MaxN == IF IOEnv.TIER = "thorough" THEN 5 ELSE 4
Vals == IF IOEnv.TIER = "thorough" THEN {-3, 0, 1, 2} ELSE {-3, 0, 2}
VARIABLES q, y, left, sx, sy, sxy, lo, hi, bins
vars == <<q, y, left, sx, sy, sxy, lo, hi, bins>>
A == -3
Z == 3
NB == 3
Init == /\ \E n \in 0..MaxN : q \in [1..n -> Vals]
        /\ y \in {[i \in 1..Len(q) |-> IF i % 2 = 0 THEN 1 ELSE -2], [i \in 1..Len(q) |-> q[Len(q) - i + 1]]}
        /\ left = 1..Len(q) /\ sx = 0 /\ sy = 0 /\ sxy = 0 /\ lo = 99 /\ hi = -99 /\ bins = [k \in 1..NB |-> 0]
Next == \E i \in left :
    /\ left' = left \ {i} /\ sx' = sx + q[i] /\ sy' = sy + y[i] /\ sxy' = sxy + q[i] * y[i]
    /\ lo' = Min2(lo, q[i]) /\ hi' = Max2(hi, q[i])
    /\ bins' = [bins EXCEPT ![BinOf(q[i], A, Z, NB) + 1] = @ + 1]
    /\ UNCHANGED <<q, y>>
Spec == Init /\ [][Next]_vars
n == Len(q)
Done == left = {}
One(v) == Mk(1, Len(v), 3, v)
Gathered == Done => /\ MeanTimesN(One(q)) = <<sx>> /\ CovTimesN2(q, y) = n * sxy - sx * sy
                    /\ n > 0 => Extrema(One(q), <<lo>>, <<hi>>)
                    /\ bins = Binned(q, A, Z, NB) /\ SumSeq(bins) = n
Fresh == left = 1..Len(q)
CovLaws == Fresh => /\ CovTimesN2(q, y) = CovTimesN2(y, q)
                    /\ CovTimesN2([i \in 1..n |-> q[i] + 7], y) = CovTimesN2(q, y)
                    /\ CovTimesN2(q, q) >= 0 /\ (CovTimesN2(q, q) = 0 <=> Constant(q))
                    \* n squared times the sum of deviations, from the definition
                    /\ n * n * CovTimesN2(q, y) = n * SumSeq([i \in 1..n |-> (n * q[i] - SumSeq(q)) * (n * y[i] - SumSeq(y))])
\* The order statistics are the values of the sorted sequence.
Sorted == SortSeq(q, LAMBDA a, b : a < b)
Levels == {<<0, 1>>, <<1, 8>>, <<1, 4>>, <<1, 3>>, <<1, 2>>, <<3, 4>>, <<7, 8>>, <<1, 1>>}
Q(a, b) == QuantileTimes(n, a, b, Sorted[Base(n, a, b) + 1], Sorted[Above(n, a, b)])
OrderLaws == (Fresh /\ n > 0) =>
    /\ \A k \in 1..n : \A x \in Vals : OrderStat(q, k, x) <=> x = Sorted[k]
    /\ \A l \in Levels : QuantileIs(q, l[1], l[2], Sorted[Base(n, l[1], l[2]) + 1], Sorted[Above(n, l[1], l[2])], Q(l[1], l[2]))
    /\ Q(0, 1) = Sorted[1] /\ Q(1, 1) = Sorted[n]
    /\ \A l, m \in Levels : l[1] * m[2] <= m[1] * l[2] => Q(l[1], l[2]) * m[2] <= Q(m[1], m[2]) * l[2]
    /\ \A w \in {<<0, 1>>, <<3, 2>>, <<1, 2>>} : \A i \in 1..n :
           /\ Sorted[1] <= q[i]
           /\ (4 * q[i] >= Q(1, 4) /\ 4 * q[i] <= Q(3, 4)) => ~Outside(q[i], Q(1, 4), Q(3, 4), w[1], w[2])
BinLaws == Fresh => \A nb \in {1, 2, 3, 6} : \A z \in {-2, 0, 3} : LET b == Binned(q, A, z, nb) IN
    /\ Len(b) = nb /\ SumSeq(b) = n
    /\ \A i \in 1..n : LET k == BinOf(q[i], A, z, nb) IN
           /\ k \in 0..(nb - 1)
           /\ q[i] < z => (q[i] - A) * nb >= k * (z - A) /\ (q[i] - A) * nb < (k + 1) * (z - A)
\* One direction fits: the wrong way, a longer or a bent one does not.
UnitLaws == /\ UnitAlong(<<3, 4>>, 5, 4096, <<3, 4>>) /\ ~UnitAlong(<<3, 4>>, 5, 4096, <<-3, -4>>)
            /\ UnitAlong(<<1, 1>>, 0, 4096, <<2896, 2896>>) /\ ~UnitAlong(<<1, 1>>, 0, 4096, <<-2896, -2896>>)
            /\ ~UnitAlong(<<1, 1>>, 0, 4096, <<2890, 2902>>) /\ ~UnitAlong(<<1, 1>>, 0, 4096, <<2048, 2048>>)
ASSUME UnitLaws
=============================================================================
