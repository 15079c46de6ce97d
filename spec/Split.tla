-------------------------------- MODULE Split --------------------------------
(* C09: splitting a Serie into consecutive parts, and joining Series.        *)
EXTENDS Series

\* Balanced sizes, larger parts first; where part i starts (0-based offset).
PartSize(t, n, i) == (t \div n) + (IF i <= t % n THEN 1 ELSE 0)
PartStart(t, n, i) == (i - 1) * (t \div n) + Min2(i - 1, t % n)
Part(s, n, i) == Slice(s, PartStart(s.n, n, i) + 1, PartStart(s.n, n, i) + PartSize(s.n, n, i))
PartitionAll(s, n) == [i \in 1..n |-> Part(s, n, i)]
\* Of a single Serie: never more parts than items, and one empty part of none.
PartsOf(t, n) == IF t = 0 THEN 1 ELSE Min2(n, t)
PartitionOne(s, n) == PartitionAll(s, PartsOf(s.n, n))

SameItemSize(ss) == \A k \in 1..Len(ss) : ss[k].is = ss[1].is
TotalCount(ss) == SumSeq([k \in 1..Len(ss) |-> ss[k].n])
ConcatV(ss) == FoldLeft(LAMBDA a, s : a \o s.v, <<>>, ss)
Concat(ss) == Mk(ss[1].is, TotalCount(ss), ss[1].dim, ConcatV(ss))

\* Interleaving: where item i of Serie k goes.
Place(ss, k, i) == SumSeq([j \in 1..Len(ss) |-> Min2(ss[j].n, i - 1)])
                   + Cardinality({j \in 1..(k - 1) : ss[j].n >= i}) + 1
IsInterleave(ss, o) ==
    /\ WF(o) /\ o.is = ss[1].is /\ o.n = TotalCount(ss)
    /\ \A k \in 1..Len(ss) : \A i \in 1..ss[k].n : Item(o, Place(ss, k, i)) = Item(ss[k], i)
Dims(ss) == {ss[k].dim : k \in 1..Len(ss)}
=============================================================================
