--------------------------- MODULE MC_SerieObject ----------------------------
(* Every history of the Serie objects over two slots and one stored name,    *)
(* small shapes and two values.                                              *)
EXTENDS SerieObject
CONSTANTS MaxN, Vals, MaxLen
VARIABLE steps
vars == <<objs, frame, steps>>
D == 1..2
Shapes == UNION {{Mk(is, n, d, v) : v \in [1..(is * n) -> Vals], d \in {2, 3}} : is \in 1..2, n \in 0..MaxN}
Init == objs = <<Blank, Blank>> /\ frame = <<Blank>> /\ steps = 0
Act == \/ \E d \in D, s \in Shapes : New(d, s)
       \/ \E d \in D, i \in 0..MaxN, w \in 1..2 : \E x \in [1..w -> Vals] : SetItem(d, i, x)
       \/ \E d \in D, k \in 0..(2 * MaxN), x \in Vals : SetScalar(d, k, x)
       \/ \E d \in D, n \in 0..MaxN : ReCount(d, n, 0)
       \/ \E d, q \in D : Copy(d, q)
       \/ \E d \in D : Destroy(d) \/ Store(1, d) \/ Fetch(d, 1)
       \/ \E k \in 0..(2 * MaxN), x \in Vals : SetStored(1, k, x)
       \/ Drop(1)
Next == Act /\ steps' = steps + 1
Spec == Init /\ [][Next]_vars
Bound == steps < MaxLen
Shaped == \A d \in D : WF(objs[d]) /\ WF(frame[1])
\* An operation changes one Serie only, and copies are equal when made.
OneAtATime == [][Cardinality({d \in D : objs'[d] # objs[d]}) + (IF frame' # frame THEN 1 ELSE 0) <= 1]_vars
CopiesAreEqual == [][\A d \in D : objs'[d] # objs[d] =>
        \/ \E q \in D : objs'[d] = objs[q]
        \/ objs'[d] = frame[1] \/ objs'[d] = Blank
        \/ objs'[d].is = objs[d].is /\ objs'[d].dim = objs[d].dim
        \/ objs'[d] \in Shapes]_vars
\* A scalar write and an item write of the same values agree.
Agree == \A d \in D : LET s == objs[d] IN s.n > 0 /\ s.is > 0 =>
    \A i \in 0..(s.n - 1) :
      /\ WithItem(s, i, Item(s, i + 1)) = s
      /\ \A x \in Vals : WithItem(s, i, [Item(s, i + 1) EXCEPT ![1] = x]) = WithScalar(s, i * s.is, x)
      /\ \A x \in Vals : \A j \in 0..(s.n - 1) : j # i => Item(WithScalar(s, i * s.is, x), j + 1) = Item(s, j + 1)
=============================================================================
