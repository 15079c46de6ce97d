------------------------------ MODULE Trace_C23 ------------------------------
EXTENDS TraceBase, Equality
VARIABLE l
vars == l
\* eps is 0 for the exact predicates
Accept(e) ==
    CASE e.op \in {"equals", "near"} -> e.res = "ok" /\ e.out = Equal(e.in[1], e.in[2], e.eps)
      [] e.op = "all" -> e.res = "ok" /\ e.out = AllEqual(e.in, e.eps)
      [] e.op = "mask" -> LET s == e.in[1] t == e.in[2] IN
             IF Alike(s, t) THEN e.res = "ok" /\ e.mask.is = 1 /\ e.mask.n = s.n /\ e.mask.v = Mask(s, t, e.eps)
             ELSE e.res = "inv"
      [] e.op = "contains" -> e.res = "ok" /\ e.out = (\E k \in 1..Len(e.list) : e.list[k] = e.x)
      [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
