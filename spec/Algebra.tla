------------------------------ MODULE Algebra --------------------------------
(***************************************************************************)
(* C17: vector and matrix algebra per item, on exact integers.              *)
(***************************************************************************)
EXTENDS Series
NotInt == 2000000001
DotP(a, b) == SumSeq([k \in 1..Len(a) |-> a[k] * b[k]])
CrossP(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
\* Row-major entries; the symmetric form packs the upper triangle by rows.
PackedAt(d, i, j) == LET a == Min2(i, j) b == Max2(i, j) IN (a - 1) * d - ((a - 1) * (a - 2)) \div 2 + (b - a + 1)
Unpack(d, m) == [k \in 1..(d * d) |-> m[PackedAt(d, (k - 1) \div d + 1, ((k - 1) % d) + 1)]]
Full(d, m) == IF Len(m) = d * d THEN m ELSE Unpack(d, m)
Ent(d, m, i, j) == m[(i - 1) * d + j]
Transposed(d, m) == [k \in 1..(d * d) |-> Ent(d, m, ((k - 1) % d) + 1, (k - 1) \div d + 1)]
MatMul(d, a, b) == [k \in 1..(d * d) |-> SumSeq([q \in 1..d |-> Ent(d, a, (k - 1) \div d + 1, q) * Ent(d, b, q, ((k - 1) % d) + 1)])]
Identity(d) == [k \in 1..(d * d) |-> IF (k - 1) \div d = (k - 1) % d THEN 1 ELSE 0]
Det(d, m) == IF d = 2 THEN m[1] * m[4] - m[2] * m[3]
             ELSE DotP(SubSeq(m, 1, 3), CrossP(SubSeq(m, 4, 6), SubSeq(m, 7, 9)))
Adjugate(m) == LET r1 == SubSeq(m, 1, 3) r2 == SubSeq(m, 4, 6) r3 == SubSeq(m, 7, 9)
               IN Transposed(3, CrossP(r2, r3) \o CrossP(r3, r1) \o CrossP(r1, r2))
\* r (in units of 1/fx) is the inverse of m: their product is the identity up to
\* the rounding of r to that unit.
InverseOf(m, r, fx) ==
    /\ \A k \in 1..9 : r[k] # NotInt /\ Abs(r[k]) < (IF fx = 1 THEN 1400000 ELSE 60000000)
    /\ \A i \in 1..3, j \in 1..3 :
        LET p == SumSeq([q \in 1..3 |-> Ent(3, m, i, q) * Ent(3, r, q, j)])
            slack == IF fx = 1 THEN 0 ELSE SumSeq([q \in 1..3 |-> Abs(Ent(3, m, i, q))]) \div 2 + 1
        IN Abs(p - (IF i = j THEN fx ELSE 0)) <= slack
\* q (in units of 1/f) is the square root of the integer x.
RootOf(x, q, f) == q >= 0 /\ q <= 46340 /\ Abs(q * q - x * f * f) <= (IF f = 1 THEN 0 ELSE q + 1)

IsMatrix(s) == (s.dim = 2 /\ s.is \in {3, 4}) \/ (s.dim = 3 /\ s.is \in {6, 9})
CanInvert(s) == s.dim = 3 /\ s.is \in {6, 9}
Mat(s, i) == Full(s.dim, Item(s, i))
IsInvalid(s) == s.is = 0 /\ s.n = 0 /\ s.v = <<>>
\* One item per item, of the given size; an empty result may have lost it.
PerItem(n, size, out, F(_)) ==
    IF n = 0 THEN out.n = 0 /\ out.v = <<>> /\ out.is \in {0, size}
    ELSE out.is = size /\ out.n = n /\ Len(out.v) = n * size /\ \A i \in 1..n : Item(out, i) = F(i)
=============================================================================
