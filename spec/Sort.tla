-------------------------------- MODULE Sort ---------------------------------
(* C11: sorting whole items. Values are ranks, ordered as the values are.     *)
EXTENDS Series
\* Lexicographic order of two items of equal length under a key per value.
LexLt(a, b, K(_)) == \E p \in 1..Len(a) : K(a[p]) < K(b[p]) /\ \A q \in 1..(p - 1) : K(a[q]) = K(b[q])
Ordered(s, Lt(_, _)) == \A i \in 1..(s.n - 1) : ~Lt(Item(s, i + 1), Item(s, i))
\* The same items the same number of times each.
Canonical(s) == SortSeq(Items(s), LAMBDA a, b : LexLt(a, b, LAMBDA x : x))
Permutes(s, t) == SameShape(s, t) /\ s.dim = t.dim /\ Canonical(s) = Canonical(t)
\* The same said with a witness: item q of t is item p[q] of s, none used twice.
PermutedBy(s, t, p) == /\ SameShape(s, t) /\ s.dim = t.dim /\ Len(p) = s.n
                       /\ {p[q] : q \in 1..Len(p)} = 1..s.n
                       /\ \A q \in 1..s.n : \A k \in 1..s.is : t.v[(q - 1) * s.is + k] = s.v[(p[q] - 1) * s.is + k]
SortsBy(s, t, p, Lt(_, _)) == WF(t) /\ PermutedBy(s, t, p) /\ Ordered(t, Lt)
SortsTo(s, t, Lt(_, _)) == WF(t) /\ SameShape(s, t) /\ s.dim = t.dim /\ Ordered(t, Lt) /\ Permutes(s, t)
=============================================================================
