------------------------------ MODULE Trace_C21 ------------------------------
EXTENDS TraceBase, Stats
VARIABLE l
vars == l
Counts(e) == e.out.is = 1 /\ e.out.n = e.nb /\ Len(e.out.v) = e.nb
Accept(e) ==
    IF e.s.is # 1 THEN e.res = "inv"
    ELSE IF e.nb = 0 THEN e.res = "ok" /\ e.out.is = 0 /\ e.out.v = <<>>
    ELSE IF e.op = "range" /\ \E i \in 1..e.s.n : e.s.v[i] < e.a THEN e.res = "inv"
    ELSE /\ e.res = "ok" /\ Counts(e)
         /\ CASE e.s.n = 0 -> e.out.v = [k \in 1..e.nb |-> 0]
              [] e.op = "range" -> e.out.v = Binned(e.s.v, e.a, e.z, e.nb)
              [] OTHER -> /\ Smallest(e.s.v, e.a) /\ Largest(e.s.v, e.z)
                          /\ IF e.a = e.z THEN OneBin(e.out.v, e.nb, e.s.n) ELSE e.out.v = Binned(e.s.v, e.a, e.z, e.nb)
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
