------------------------------ MODULE Trace_C15 ------------------------------
EXTENDS TraceBase, Pipeline
VARIABLE l
vars == l

AcceptRun(e) ==
    LET ops == Flat(e.prog)
        bad == {i \in 1..Len(ops) : Fails(ops[i])}
        upto == IF bad = {} THEN Len(ops) ELSE CHOOSE i \in bad : \A j \in bad : i <= j
    IN /\ FollowsPlan(ops, e.x, e.calls)
       /\ Len(e.calls) = upto                 \* each operation exactly once, none after a failure
       /\ IF bad = {} THEN e.res = "ok" /\ e.out = Run(ops, e.x) ELSE e.res # "ok"
       /\ e.after = e.x
\* A reusable operation: every use gave what the operation itself gives.
AcceptReuse(e) == \A i \in 1..Len(e.made) : e.made[i] = e.direct[i]
Accept(e) == CASE e.op = "run" -> AcceptRun(e) [] e.op = "reuse" -> AcceptReuse(e) [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
