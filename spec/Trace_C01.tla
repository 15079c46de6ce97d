------------------------------ MODULE Trace_C01 ------------------------------
EXTENDS TraceBase, SerieObject
VARIABLE l
vars == <<l, objs, frame>>
S == objs[1]

Reports(e, s) == e.after = s /\ e.size = Size(s) /\ e.len = Len(s.v)
NewSerie(e) == IF e.how = "count" THEN Zeros(e.is, e.n, e.dim, e.z)
               ELSE Mk(e.is, IF e.is = 0 THEN 0 ELSE e.n, e.dim, e.given)
ItemReads == {"value", "getArray", "get"}
ItemWrites == {"setValue", "setArray"}

Step(e) ==
    CASE e.op = "new" -> /\ New(1, NewSerie(e))
                         /\ Reports(e, NewSerie(e)) /\ (e.valid = (e.is > 0))
      [] e.op = "read" ->
            /\ UNCHANGED <<objs, frame>>
            /\ IF e.how \in ItemReads
               THEN IF InItems(S, e.i) THEN e.res = "ok" /\ e.got = Item(S, e.i + 1) ELSE e.res = "inv"
               ELSE IF InScalars(S, e.i) THEN e.res = "ok" /\ e.got = <<S.v[e.i + 1]>> ELSE e.res = "inv"
      [] e.op = "write" ->
            /\ IF e.how \in ItemWrites
               THEN IF InItems(S, e.i) /\ Len(e.v) = S.is THEN e.res = "ok" /\ SetItem(1, e.i, e.v)
                    ELSE e.res = "inv" /\ UNCHANGED <<objs, frame>>
               ELSE IF InScalars(S, e.i) THEN e.res = "ok" /\ SetScalar(1, e.i, e.v[1])
                    ELSE e.res = "inv" /\ UNCHANGED <<objs, frame>>
            /\ e.after = objs'[1]
      [] e.op = "recount" -> ReCount(1, e.n, e.z) /\ Reports(e, objs'[1])
      [] OTHER -> FALSE

Init == l = 1 /\ objs = <<Blank>> /\ frame = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
