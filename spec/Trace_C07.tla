------------------------------ MODULE Trace_C07 ------------------------------
EXTENDS TraceBase, Selection

VARIABLE l
vars == l

Keeps == {"filter", "make_filter", "filterAll", "make_filterAll"}
Drops == {"reject", "make_reject", "rejectAll", "make_rejectAll"}

\* The predicate is asked once per position, in order, about the items of all
\* the Series at that position.
AskedInOrder(e) ==
    /\ Len(e.ci) = e.in[1].n /\ Len(e.cv) = e.in[1].n
    /\ \A k \in 1..Len(e.ci) :
        /\ e.ci[k] = k - 1
        /\ e.cv[k] = [j \in 1..Len(e.in) |-> Item(e.in[j], k)]

Counts(e) == LET c == [k \in 1..Len(e.in) |-> e.in[k].n] IN
    IF e.op = "count" \/ SameCounts(e.in) THEN e.res = "ok" /\ e.counts = c ELSE e.res = "inv" /\ e.counts = <<>>

Accept(e) == IF e.op \in {"count", "countAndCheck"} THEN Counts(e) ELSE
    /\ e.op \in Keeps \cup Drops
    /\ IF ~SameCounts(e.in) THEN e.res = "inv" /\ e.ci = <<>>
       ELSE /\ e.res = "ok"
            /\ AskedInOrder(e)
            /\ e.out = IF e.op \in Keeps THEN FilterAll(e.in, e.ans) ELSE RejectAll(e.in, e.ans)

Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
