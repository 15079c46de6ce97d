------------------------------ MODULE Trace_C12 ------------------------------
EXTENDS TraceBase, Parallel
VARIABLE l
vars == <<l, call, started, running, result>>

\* The item-wise functions the driver passes.
Fn(f, s) ==
    CASE f = "id" -> s
      [] f = "rev" -> FromItems(s.is, s.dim, [i \in 1..s.n |-> Reverse0(Item(s, i))])
      [] f = "first" -> Mk(1, s.n, s.dim, [i \in 1..s.n |-> At(s, i, 1)])
      [] f = "dup" -> FromItems(2 * s.is, s.dim, [i \in 1..s.n |-> Item(s, i) \o Item(s, i)])

\* Which part the function was given: one that is due and equal to it.
Which(s) == {k \in (1..Len(PartList(call))) \ started : PartList(call)[k] = s}
\* The driver numbers the function's calls in order of appearance.
VARIABLE jobs
Step(e) ==
    CASE e.op = "begin" -> Begin([in |-> e.in, cores |-> e.cores, fn |-> e.fn]) /\ jobs' = <<>>
      [] e.op = "start" ->
            /\ e.job = Len(jobs)
            /\ \E k \in Which(e.part) : Start(k) /\ jobs' = Append(jobs, k)
      [] e.op = "end" ->
            /\ e.job < Len(jobs)
            /\ LET k == jobs[e.job + 1] IN
               /\ e.how = "ok" => e.out = Fn(call.fn, PartList(call)[k])
               /\ End(k, [how |-> IF e.how = "ok" THEN "ok" ELSE e.how, out |-> e.out])
            /\ UNCHANGED jobs
      [] e.op = "return" ->
            /\ e.after = call.in           \* the input is unchanged
            /\ IF e.res = "ok"
               THEN /\ ReturnOk(e.out[1])
                    /\ Bad(result) \/ e.out[1] = Fn(call.fn, call.in)   \* what one call on the whole gives
               ELSE ReturnFailed
            /\ UNCHANGED jobs
      [] OTHER -> FALSE
Init == l = 1 /\ NoCall /\ jobs = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, call, started, running, result, jobs>>
=============================================================================
