-------------------------------- MODULE Random -------------------------------
(***************************************************************************)
(* C25: random Series. A value is its place in [lo, hi], in 2^52ths of it:   *)
(* p and q with p * 2^26 + q. known is what every call so far has given,     *)
(* by its arguments.                                                         *)
(***************************************************************************)
EXTENDS Series
TheTop == 67108864
Within(p) == p >= 0 /\ p <= TheTop
\* Place k of the values, item i, component j
Spot(s, k) == <<s.p[k], s.q[k]>>
ItemOf(s, i) == [j \in 1..s.is |-> Spot(s, (i - 1) * s.is + j)]
Distinct(Q(_), n) == Cardinality({Q(k) : k \in 1..n}) = n
Constant(s, j) == \A i \in 2..s.n : Spot(s, (i - 1) * s.is + j) = Spot(s, j)
Shaped(s, n, is) == s.is = is /\ s.n = n /\ Len(s.p) = n * is /\ Len(s.q) = n * is
Bounded(s) == \A k \in 1..Len(s.p) : Within(s.p[k])
\* Neither items, nor components, nor the values of one item are copies.
Varied(s) == /\ Distinct(LAMBDA i : ItemOf(s, i), s.n)
             /\ s.n >= 2 => \A j \in 1..s.is : ~Constant(s, j)
             /\ s.is >= 2 => \A i \in 1..s.n : Cardinality({Spot(s, (i - 1) * s.is + j) : j \in 1..s.is}) >= 2
\* Many values: every tenth of the range has its share, in every component.
Tenth(p) == Min2((p * 10) \div TheTop, 9)
Spread(s) == s.n >= 1000 => \A j \in 1..s.is : \A t \in 0..9 : 25 * Cardinality({i \in 1..s.n : Tenth(s.p[(i - 1) * s.is + j]) = t}) >= s.n
Others(known, key) == {k \in DOMAIN known : k[1] = key[1] /\ k[5] # key[5]}
\* The answer to a call: as before, if it was made before; not what another seed gave.
Repeats(known, key, a) == key \in DOMAIN known => known[key] = a
Sole(known, key, a) == \A k \in Others(known, key) : known[k].id # a.id /\ known[k].some \cap a.some = {}
=============================================================================
