------------------------------ MODULE Trace_C09 ------------------------------
EXTENDS TraceBase, Split
VARIABLE l
vars == l

Failed(e) == e.res # "ok"
Counts(ss) == \A k \in 1..Len(ss) : ss[k].n = ss[1].n

AcceptPartition(e) ==
    IF e.parts = 0 \/ ~Counts(e.in) THEN Failed(e)
    ELSE /\ e.res = "ok" /\ Len(e.out) = Len(e.in)
         /\ \A k \in 1..Len(e.in) :
                e.out[k] = IF Len(e.in) = 1 THEN PartitionOne(e.in[1], e.parts)
                                            ELSE PartitionAll(e.in[k], e.parts)

Joinable(e) == e.in # <<>> /\ SameItemSize(e.in) /\ (e.how = "merge" \/ Valid(e.in[1]))

AcceptConcat(e) ==
    IF ~Joinable(e) THEN Failed(e)
    ELSE /\ e.res = "ok"
         /\ LET o == e.out[1] IN
            /\ o.is = e.in[1].is /\ o.n = TotalCount(e.in) /\ o.dim \in Dims(e.in)
            /\ o.v = ConcatV(e.in)
AcceptInterleave(e) ==
    IF ~Joinable(e) THEN Failed(e)
    ELSE e.res = "ok" /\ IsInterleave(e.in, e.out[1]) /\ e.out[1].dim \in Dims(e.in)

Accept(e) ==
    CASE e.op = "partition_n" -> AcceptPartition(e)
      [] e.op = "concat" -> AcceptConcat(e)
      [] e.op = "interleave" -> AcceptInterleave(e)
      [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
