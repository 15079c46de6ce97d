------------------------------ MODULE Trace_C14 ------------------------------
EXTENDS TraceBase, Purity
VARIABLES l, memory
vars == <<l, memory>>
\* One call, the same again, and writes into the first result and then into the arguments.
Answer(e) == [f |-> e.f, res |-> e.res, out |-> e.out]
\* "fresh": the answer given by a process that has called nothing before.
Pure(e) == IF e.op = "fresh" THEN e.case \notin DOMAIN memory ELSE
           /\ e.op = "call"
           /\ e.after = e.before /\ e.poked = e.before           \* arguments as before, no storage shared with the result
           /\ e.res2 = e.res /\ e.kept = e.out                   \* the same answer at once, which later writes do not reach
           /\ e.res3 = e.res /\ e.elsewhere = e.out             \* and wherever equal arguments are stored
           /\ Called(memory, e.case, e.before, Answer(e))
Init == l = 1 /\ memory = <<>>
Next == /\ l <= Len(Trace) /\ Pure(Trace[l]) = TRUE /\ l' = l + 1
        /\ memory' = Remember(memory, Trace[l].case, Trace[l].before, Answer(Trace[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
