------------------------------ MODULE Trace_C26 ------------------------------
EXTENDS TraceBase, Render
VARIABLE l
vars == l
TheText(e) ==
    CASE e.kind = "array" -> OfArray(e.what, e.fixed)
      [] e.kind = "strings" -> OfStrings(e.what)
      [] e.kind = "serie" -> OfSerie(e.what, e.fixed)
      [] e.kind = "series" -> OfSeries(e.what, e.fixed)
\* what reached the streams: two of the caller's, standard output, and the error streams
Only(e, to, t) == e.got = [k \in 1..4 |-> IF k = to THEN t ELSE ""]
\* a message: its kind, its text, one line (^ is how the escape character is recorded)
Kind == <<"1;32mInfo : ", "1;34mWarn : ", "1;31mError: ">>
Esc == "^"
Told(got, how, text, here) == got = IF here THEN Cat(<<Esc, "[", Kind[how], Esc, "[0m", text, NL>>) ELSE ""
Accept(e) ==
    CASE e.op = "put" -> e.res = "ok" /\ e.back /\ e.kept /\ Only(e, e.to, TheText(e))
      [] e.op = "chain" -> e.res = "ok" /\ e.back /\ Only(e, e.to, Cat(<<OfArray(e.a, 0), OfSerie(e.s, 0), OfStrings(e.l), OfArray(e.a, 0)>>))
      [] e.op = "print" -> e.res = "ok" /\ Only(e, 3, PrintedAll(e.what))
      [] e.op = "vtext" -> e.res = "ok" /\ Only(e, 0, "") /\ e.text = VectorText(e.what)
      [] e.op = "aprint" -> e.res = "ok" /\ Only(e, 4, OfArray(e.what, 0))
      [] e.op = "dump" -> e.res = "ok" /\ Only(e, 4, Dumped(e.what))
      [] e.op = "fdump" -> e.res = "ok" /\ Only(e, 4, FrameDumped(e.names, e.what))
      [] e.op = "told" -> e.res = "ok" /\ Len(e.got) = 4 /\ \A k \in 1..4 : Told(e.got[k], e.how, e.text, k = IF e.how = 1 THEN 3 ELSE 4)
      [] e.op = "log" -> e.res = "ok" /\ Only(e, 3, Pieces(LET a == OfSerie(e.what, 0) n == ToString(e.n) t == e.text IN
             CASE e.how = 1 -> <<t>> [] e.how = 2 -> <<n, t>> [] e.how = 3 -> <<t, a, n>> [] OTHER -> <<a, n, t, a>>))
      [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
