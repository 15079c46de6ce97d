------------------------------ MODULE Trace_C10 ------------------------------
EXTENDS TraceBase, Zip
VARIABLE l
vars == l
Accept(e) ==
    CASE e.op = "zip" ->
            IF ~Zippable(e.in) THEN e.res = "inv"
            ELSE e.res = "ok" /\ IsZip(e.in, e.out) /\ e.out.dim \in {e.in[k].dim : k \in 1..Len(e.in)}
      [] e.op = "unzip" ->
            IF ~Fits(e.in, e.sizes) THEN e.res = "inv"
            ELSE e.res = "ok" /\ e.out = Unzip(e.in, e.sizes)
      [] e.op \in {"zipunzip", "unzipzip"} -> e.res = "ok" /\ e.out = e.in
      [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
