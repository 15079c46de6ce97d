------------------------------- MODULE Series -------------------------------
(***************************************************************************)
(* The abstract Serie shared by every specification of the dataframe      *)
(* library: an item size, an item count, a dimension and the flat sequence *)
(* of values, item after item.  Values are opaque identities (the rank of  *)
(* a double in a fixed ordered pool) or exact integers, depending on the   *)
(* property.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Mk(is, n, dim, v) == [is |-> is, n |-> n, dim |-> dim, v |-> v]

\* A Serie holds exactly count * itemSize values.
WF(s) == s.is >= 0 /\ s.n >= 0 /\ Len(s.v) = s.is * s.n
Valid(s) == s.is > 0
Size(s) == s.is * s.n

\* Item at position i (1-based) and its component j (1-based).
Item(s, i) == SubSeq(s.v, (i - 1) * s.is + 1, i * s.is)
At(s, i, j) == s.v[(i - 1) * s.is + j]
Items(s) == [i \in 1..s.n |-> Item(s, i)]

\* The positions 1..n as a sequence.
Upto(n) == [i \in 1..n |-> i]
Positions(n, P(_)) == SelectSeq(Upto(n), P)

\* The Serie made of the items at the given positions, in that order.
Gather(s, idx) ==
    Mk(s.is, Len(idx), s.dim,
       [k \in 1..(s.is * Len(idx)) |->
            s.v[(idx[((k - 1) \div s.is) + 1] - 1) * s.is + ((k - 1) % s.is) + 1]])

Slice(s, from, to) == Mk(s.is, to - from + 1, s.dim,
                         SubSeq(s.v, (from - 1) * s.is + 1, to * s.is))

\* n items given one by one.
FromItems(is, dim, items) ==
    Mk(is, Len(items), dim,
       [k \in 1..(is * Len(items)) |-> items[((k - 1) \div is) + 1][((k - 1) % is) + 1]])

SameShape(s, t) == s.is = t.is /\ s.n = t.n
Reverse0(q) == [i \in 1..Len(q) |-> q[Len(q) - i + 1]]
MapSeq(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
SumSeq(q) == FoldLeft(LAMBDA a, b: a + b, 0, q)
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x
Range1(q) == {q[i] : i \in 1..Len(q)}
AllEq(q) == \A i \in 2..Len(q) : q[i] = q[1]
=============================================================================
