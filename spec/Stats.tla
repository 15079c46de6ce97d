-------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* C19-C21: means, covariances, extrema, normalization, order statistics,    *)
(* outliers and bins, on exact integers (values are integers times a unit).  *)
(***************************************************************************)
EXTENDS Series

------------------------------------------------------------------------------
(* Averages. Every quantity is multiplied by the counts it was divided by.    *)
Column(s, j) == [i \in 1..s.n |-> At(s, i, j)]
MeanTimesN(s) == [j \in 1..s.is |-> SumSeq(Column(s, j))]
\* n^2 times the average product of deviations
CovTimesN2(x, y) == Len(x) * SumSeq([i \in 1..Len(x) |-> x[i] * y[i]]) - SumSeq(x) * SumSeq(y)

------------------------------------------------------------------------------
(* Extrema.                                                                   *)
Smallest(q, m) == (\E i \in 1..Len(q) : q[i] = m) /\ \A i \in 1..Len(q) : m <= q[i]
Largest(q, m) == (\E i \in 1..Len(q) : q[i] = m) /\ \A i \in 1..Len(q) : m >= q[i]
Extrema(s, lo, hi) == /\ Len(lo) = s.is /\ Len(hi) = s.is
                      /\ \A j \in 1..s.is : Smallest(Column(s, j), lo[j]) /\ Largest(Column(s, j), hi[j])

------------------------------------------------------------------------------
(* Normalization of scalars: R is the range; times R, the result is v - min.  *)
Constant(q) == AllEq(q)
AffineTo01(v, lo, hi, R, q) == /\ Smallest(v, lo) /\ Largest(v, hi) /\ R = hi - lo /\ R > 0
                               /\ Len(q) = Len(v) /\ \A i \in 1..Len(v) : q[i] = v[i] - lo
(* An item v of integers and its direction u in units of 1/one. L, if not 0,  *)
(* is v's integer length, and then u is recorded in units of 1/L.             *)
SquareSum(v) == SumSeq([j \in 1..Len(v) |-> v[j] * v[j]])
Zero(v) == \A j \in 1..Len(v) : v[j] = 0
UnitAlong(v, L, one, u) ==
    IF L > 0 THEN L * L = SquareSum(v) /\ u = v
    ELSE /\ \A j \in 1..Len(v) : Abs(u[j]) <= one + 1
         /\ Abs(SquareSum(u) - one * one) <= (one * (Len(v) + 2))             \* length one
         /\ \A j, k \in 1..Len(v) : 2 * Abs(u[j] * v[k] - u[k] * v[j]) <= Abs(v[j]) + Abs(v[k]) + 1 \* along v
         /\ SumSeq([j \in 1..Len(v) |-> u[j] * v[j]]) > 0                     \* the same way

------------------------------------------------------------------------------
(* Order statistics: x is the k-th smallest (k = 1 .. n) of the values q.     *)
Below(q, x) == Len(SelectSeq(q, LAMBDA v : v < x))
UpTo(q, x) == Len(SelectSeq(q, LAMBDA v : v <= x))
OrderStat(q, k, x) == Below(q, x) < k /\ k <= UpTo(q, x)
\* b times the quantile at level a/b, given the two order statistics around it
Base(n, a, b) == ((n - 1) * a) \div b
Rest(n, a, b) == ((n - 1) * a) % b
Above(n, a, b) == Min2(Base(n, a, b) + 2, n)
QuantileTimes(n, a, b, lo, hi) == b * lo + Rest(n, a, b) * (hi - lo)
QuantileIs(q, a, b, lo, hi, r) == /\ OrderStat(q, Base(Len(q), a, b) + 1, lo)
                                  /\ OrderStat(q, Above(Len(q), a, b), hi)
                                  /\ r = QuantileTimes(Len(q), a, b, lo, hi)
\* Four times the quartiles and kd times the whisker: bounds in units of 1/(4 kd).
Outside(v, q1, q3, kn, kd) == \/ 4 * kd * v < kd * q1 - kn * (q3 - q1)
                              \/ 4 * kd * v > kd * q3 + kn * (q3 - q1)

------------------------------------------------------------------------------
(* Bins over [a, z] of common width (z - a) / nb.                             *)
BinOf(v, a, z, nb) == IF v >= z THEN nb - 1 ELSE ((v - a) * nb) \div (z - a)
CountIn(q, k, a, z, nb) == Len(SelectSeq(q, LAMBDA v : BinOf(v, a, z, nb) = k))
Binned(q, a, z, nb) == [k \in 1..nb |-> CountIn(q, k - 1, a, z, nb)]
\* An empty range has no widths to tell the bins apart: one of them has it all.
OneBin(out, nb, n) == Len(out) = nb /\ \E k \in 1..nb : out = [j \in 1..nb |-> IF j = k THEN n ELSE 0]
=============================================================================
