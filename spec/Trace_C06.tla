------------------------------ MODULE Trace_C06 ------------------------------
EXTENDS TraceBase, Selection

VARIABLE l
vars == l

Keeps == {"filter", "mfilter", "make_filter", "cut", "make_cut", "findAll", "makeFindAll"}
Drops == {"reject", "make_reject"}
Finds == {"find", "makeFind"}

\* Which kinds of predicate an operation refuses.
Refused(e) ==
    \/ e.op \in Finds \cup {"partition"} /\ e.kind = "s" /\ e.in.is # 1
    \/ e.op \in Finds /\ e.kind = "a" /\ e.in.is = 1

\* Every call carried the value of the item whose index it carried.
CallsTrue(e) ==
    /\ Len(e.ci) = Len(e.cv)
    /\ \A k \in 1..Len(e.ci) : e.ci[k] \in 0..(e.in.n - 1) /\ e.cv[k] = Item(e.in, e.ci[k] + 1)
    /\ Cardinality(Range1(e.ci)) = Len(e.ci)            \* nobody is asked twice
AskedAll(e) == Len(e.ci) = e.in.n

Found(e) ==
    LET p == FirstKept(e.ans) IN
    /\ e.find.found = e.find.flag
    /\ IF p = 0 THEN ~e.find.found /\ AskedAll(e)
       ELSE /\ e.find.found /\ e.find.index = p - 1 /\ e.find.value = Item(e.in, p)
            /\ (0..(p - 1)) \subseteq Range1(e.ci)

Accept(e) ==
    /\ e.op \in Keeps \cup Drops \cup Finds \cup {"partition"}
    /\ IF Refused(e) THEN e.res = "inv"
       ELSE /\ e.res = "ok"
            /\ CallsTrue(e)
            /\ IF e.op \in Finds THEN Found(e)
               ELSE /\ AskedAll(e)
                    /\ e.out = CASE e.op \in Keeps -> <<Filter(e.in, e.ans)>>
                                 [] e.op \in Drops -> <<Reject(e.in, e.ans)>>
                                 [] OTHER -> Partition(e.in, e.ans)

Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
