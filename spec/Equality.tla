------------------------------- MODULE Equality ------------------------------
(***************************************************************************)
(* C23: equality of Series, exactly or within eps, and masks of the items    *)
(* that are equal. Values and eps are integers times one unit.               *)
(***************************************************************************)
EXTENDS Series
Alike(s, t) == Valid(s) /\ Valid(t) /\ s.is = t.is /\ s.n = t.n
Near(a, b, eps) == a - b <= eps /\ b - a <= eps
SameValues(p, q, eps) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Near(p[k], q[k], eps)
Equal(s, t, eps) == Alike(s, t) /\ s.dim = t.dim /\ SameValues(s.v, t.v, eps)
AllEqual(ss, eps) == \A i \in 2..Len(ss) : Equal(ss[i - 1], ss[i], eps)
Mask(s, t, eps) == [i \in 1..s.n |-> IF \A j \in 1..s.is : Near(At(s, i, j), At(t, i, j), eps) THEN 1 ELSE 0]
=============================================================================
