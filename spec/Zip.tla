--------------------------------- MODULE Zip ---------------------------------
(* C10: putting Series side by side, and cutting items into pieces.          *)
EXTENDS Series
SizesOf(ss) == [k \in 1..Len(ss) |-> ss[k].is]
\* Width before piece k.
Before(sizes, k) == SumSeq(SubSeq(sizes, 1, k - 1))
Zippable(ss) == /\ ss # <<>> /\ \A k \in 1..Len(ss) : ss[k].is > 0
                /\ \A k \in 1..Len(ss) : ss[k].n = ss[1].n
\* o is the Series of ss side by side.
IsZip(ss, o) ==
    /\ WF(o) /\ o.n = ss[1].n /\ o.is = SumSeq(SizesOf(ss))
    /\ \A k \in 1..Len(ss) :
        LET off == Before(SizesOf(ss), k) IN
        \A i \in 1..o.n : SubSeq(o.v, (i - 1) * o.is + off + 1, (i - 1) * o.is + off + ss[k].is) = Item(ss[k], i)
\* Fits: small numbers only, the sizes may be huge.
Fits(s, sizes) == /\ sizes # <<>> /\ \A k \in 1..Len(sizes) : sizes[k] <= s.is
                  /\ SumSeq(sizes) = s.is
Piece(s, off, w) == Mk(w, s.n, s.dim,
    [x \in 1..(w * s.n) |-> s.v[((x - 1) \div w) * s.is + off + ((x - 1) % w) + 1]])
Unzip(s, sizes) == [k \in 1..Len(sizes) |-> Piece(s, Before(sizes, k), sizes[k])]
=============================================================================
