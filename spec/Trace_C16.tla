------------------------------ MODULE Trace_C16 ------------------------------
EXTENDS TraceBase, Arith
VARIABLE l
vars == l
Same(e, fits, Expected) == IF fits THEN e.res = "ok" /\ Gives(Expected, e.out) ELSE e.res = "inv"
Accept(e) ==
    LET s == e.in[1] IN
    CASE e.op = "add" -> Same(e, Fit(e.in), Adds(e.in))
      [] e.op = "sub" -> Same(e, Fit(e.in), Subs(e.in))
      [] e.op = "weighted" -> Same(e, Len(e.x) = Len(e.in) /\ Fit(e.in), Weighted(e.in, e.x))
      [] e.op = "addc" -> Same(e, s.is = 1, Shift(s, e.x[1]))
      [] e.op = "subc" -> Same(e, s.is = 1, Shift(s, -e.x[1]))
      [] e.op \in {"mulc", "sclc"} -> Same(e, TRUE, ScaleBy(s, e.x[1]))
      [] e.op = "neg" -> Same(e, TRUE, Negated(s))
      [] e.op = "mult" -> Same(e, MultFits(s, e.in[2]), Product(s, e.in[2]))
      [] e.op = "scale" -> Same(e, Len(e.x) = s.is, ScaleEach(s, e.x))
      [] e.op = "divc" -> e.res = "ok" /\ DividesTo(s, [i \in 1..s.n |-> e.wk[1]], [i \in 1..s.n |-> e.w[1]], e.fx, e.out)
      [] e.op = "div" -> IF DivFits(s, e.in[2]) THEN e.res = "ok" /\ DividesTo(s, e.wk, e.w, e.fx, e.out) ELSE e.res = "inv"
      [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
