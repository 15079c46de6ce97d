------------------------------ MODULE Trace_C20 ------------------------------
EXTENDS TraceBase, Stats
VARIABLE l
vars == l
Scalar(s) == s.is = 1 /\ s.n > 0
Level(e) == e.b > 0 /\ 0 <= e.a /\ e.a <= e.b
Kept(s, P(_)) == SelectSeq(s.v, P)
Accept(e) ==
    CASE e.op = "quantile" -> IF Scalar(e.s) /\ Level(e) THEN e.res = "ok" /\ QuantileIs(e.s.v, e.a, e.b, e.lo, e.hi, e.q) ELSE e.res = "inv"
      [] e.op = "quartiles" -> IF Scalar(e.s)
             THEN /\ e.res = "ok" /\ \A k \in 1..3 : QuantileIs(e.s.v, k, 4, e.lo[k], e.hi[k], e.q[k])
                  /\ e.q[4] = e.q[3] - e.q[1]
             ELSE e.res = "inv"
      [] e.op = "outliers" -> IF Scalar(e.s)
             THEN /\ e.res = "ok"
                  /\ QuantileIs(e.s.v, 1, 4, e.lo[1], e.hi[1], e.q1) /\ QuantileIs(e.s.v, 3, 4, e.lo[3], e.hi[3], e.q3)
                  /\ LET Out(v) == Outside(v, e.q1, e.q3, e.kn, e.kd) IN
                     /\ e.out.v = Kept(e.s, LAMBDA v : Out(v)) /\ e.out.n = Len(e.out.v)
                     /\ e.in.v = Kept(e.s, LAMBDA v : ~Out(v)) /\ e.in.n = Len(e.in.v)
                     /\ e.is.is = 1 /\ e.is.n = e.s.n /\ e.is.v = [i \in 1..e.s.n |-> IF Out(e.s.v[i]) THEN 1 ELSE 0]
             ELSE e.res = "inv"
      [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
