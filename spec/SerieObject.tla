---------------------------- MODULE SerieObject ------------------------------
(***************************************************************************)
(* C01, C02: Serie objects and the operations on them.  `objs` holds one   *)
(* abstract Serie per slot; `frame` the Series stored in a Dataframe.      *)
(* Every operation is an action that changes exactly one of them.          *)
(***************************************************************************)
EXTENDS Series

VARIABLES objs, frame

Blank == Mk(0, 0, 3, <<>>)                      \* a default constructed Serie
Zeros(is, n, dim, z) == Mk(is, n, dim, [k \in 1..(is * n) |-> z])

\* ---- what one operation does to one Serie
WithItem(s, i, x) ==       \* i is 0-based
    [s EXCEPT !.v = SubSeq(s.v, 1, i * s.is) \o x \o SubSeq(s.v, (i + 1) * s.is + 1, Len(s.v))]
WithScalar(s, k, x) == [s EXCEPT !.v = SubSeq(s.v, 1, k) \o <<x>> \o SubSeq(s.v, k + 2, Len(s.v))]
ReCounted(s, n, z) == Zeros(s.is, n, s.dim, z)
InItems(s, i) == i < s.n
InScalars(s, k) == k < Len(s.v)

\* ---- actions
New(d, s) == objs' = [objs EXCEPT ![d] = s] /\ UNCHANGED frame
SetItem(d, i, x) == /\ InItems(objs[d], i) /\ Len(x) = objs[d].is
                    /\ objs' = [objs EXCEPT ![d] = WithItem(@, i, x)] /\ UNCHANGED frame
SetScalar(d, k, x) == /\ InScalars(objs[d], k)
                      /\ objs' = [objs EXCEPT ![d] = WithScalar(@, k, x)] /\ UNCHANGED frame
ReCount(d, n, z) == objs' = [objs EXCEPT ![d] = ReCounted(@, n, z)] /\ UNCHANGED frame
Copy(d, q) == objs' = [objs EXCEPT ![d] = objs[q]] /\ UNCHANGED frame
Destroy(d) == objs' = [objs EXCEPT ![d] = Blank] /\ UNCHANGED frame
Store(n, q) == frame' = [frame EXCEPT ![n] = objs[q]] /\ UNCHANGED objs
Fetch(d, n) == objs' = [objs EXCEPT ![d] = frame[n]] /\ UNCHANGED frame
SetStored(n, k, x) == /\ InScalars(frame[n], k)
                      /\ frame' = [frame EXCEPT ![n] = WithScalar(@, k, x)] /\ UNCHANGED objs
Drop(n) == frame' = [frame EXCEPT ![n] = Blank] /\ UNCHANGED objs
=============================================================================
