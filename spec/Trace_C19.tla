------------------------------ MODULE Trace_C19 ------------------------------
EXTENDS TraceBase, Stats
VARIABLE l
vars == l
Accept(e) ==
    CASE e.op = "mean" -> e.res = "ok" /\ e.isnum = (e.s.is = 1) /\ e.q = MeanTimesN(e.s)
      [] e.op = "cov" -> IF e.x.n = e.y.n /\ e.x.is = 1 /\ e.y.is = 1
                         THEN e.res = "ok" /\ e.resr = "ok" /\ e.q = CovTimesN2(e.x.v, e.y.v) /\ e.r = e.q
                         ELSE e.res = "inv" /\ e.resr = "inv"
      [] e.op = "minmax" -> IF ~Valid(e.s) THEN e.res = "inv"
                            ELSE e.res = "ok" /\ IF e.s.n = 0 THEN e.lo = <<>> /\ e.hi = <<>> ELSE Extrema(e.s, e.lo, e.hi)
      [] e.op = "norm1" -> /\ e.res = "ok" /\ e.out.is = 1 /\ e.out.n = e.s.n /\ e.out.dim = e.s.dim
                           /\ AffineTo01(e.s.v, e.lo, e.hi, e.hi - e.lo, e.out.v)
      [] e.op = "normv" -> /\ e.res = "ok" /\ SameShape(e.out, e.s) /\ e.out.dim = e.s.dim
                           /\ \A i \in 1..e.s.n : Zero(Item(e.s, i)) \/ UnitAlong(Item(e.s, i), e.len[i], 4096, Item(e.out, i))
      [] e.op = "norm0" -> IF ~Valid(e.s) THEN e.res = "inv" ELSE e.res = "ok" /\ e.out.n = 0 /\ e.out.v = <<>>
      [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
