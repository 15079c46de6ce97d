------------------------------- MODULE Arith ---------------------------------
(***************************************************************************)
(* C16: elementwise arithmetic on exact integers (the driver's values are    *)
(* integers times one power of two, so every result is exact).              *)
(***************************************************************************)
EXTENDS Series
NotInt == 2000000001
Comp(s, F(_)) == [s EXCEPT !.v = [k \in 1..Len(s.v) |-> F(k)]]
ItemOf(s, k) == ((k - 1) \div s.is) + 1        \* the item value k belongs to
PartOf(s, k) == ((k - 1) % s.is) + 1           \* ... and its component

Fit(ss) == \A j \in 2..Len(ss) : ss[j].n = ss[1].n /\ ss[j].is = ss[1].is
Adds(ss) == Comp(ss[1], LAMBDA k : SumSeq([j \in 1..Len(ss) |-> ss[j].v[k]]))
Subs(ss) == Comp(ss[1], LAMBDA k : ss[1].v[k] - SumSeq([j \in 1..(Len(ss) - 1) |-> ss[j + 1].v[k]]))
Weighted(ss, w) == Comp(ss[1], LAMBDA k : SumSeq([j \in 1..Len(ss) |-> ss[j].v[k] * w[j]]))
Shift(s, x) == Comp(s, LAMBDA k : s.v[k] + x)
ScaleBy(s, x) == Comp(s, LAMBDA k : s.v[k] * x)
ScaleEach(s, xs) == Comp(s, LAMBDA k : s.v[k] * xs[PartOf(s, k)])
Negated(s) == Comp(s, LAMBDA k : -s.v[k])
MultFits(s, m) == m.n = s.n /\ (m.is = 1 \/ m.is = s.is)
Product(s, m) == IF m.is = 1 THEN Comp(s, LAMBDA k : s.v[k] * m.v[ItemOf(s, k)])
                 ELSE Comp(s, LAMBDA k : s.v[k] * m.v[k])
\* q is v / w in units of 1/fx (fx = 1: the division is exact).
Quotient(v, w, fx, q) ==
    /\ q # NotInt
    /\ IF fx = 1 THEN v % Abs(w) = 0 /\ q = (IF w > 0 THEN v \div w ELSE (-v) \div (-w))
       ELSE /\ Abs(q) <= (Abs(v) * fx) \div Abs(w) + 1
            /\ 2 * Abs(q * w - v * fx) <= Abs(w) + 1
\* A divider smaller than 1e-10 ("none") makes zeros.
DividesTo(s, wk, w, fx, out) ==
    /\ out.n = s.n /\ out.dim = s.dim
    /\ s.n > 0 => out.is = s.is
    /\ Len(out.v) = Len(s.v)
    /\ \A k \in 1..Len(s.v) : IF wk[ItemOf(s, k)] = "none" THEN out.v[k] = 0 ELSE Quotient(s.v[k], w[ItemOf(s, k)], fx, out.v[k])
DivFits(s, d) == Valid(s) /\ Valid(d) /\ d.n = s.n /\ d.is = 1
\* An empty Serie gives an empty one (of whatever item size).
Gives(expected, out) == IF expected.n = 0 THEN out.n = 0 /\ out.dim = expected.dim /\ out.v = <<>> /\ out.is \in {0, expected.is}
                        ELSE out = expected
=============================================================================
