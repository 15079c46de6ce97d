------------------------------ MODULE Trace_C28 ------------------------------
EXTENDS TraceBase, Overlap
VARIABLES l, alone, args, open
vars == <<l, alone, args, open>>
Threads == 0..8
Ans(e) == [res |-> e.res, out |-> e.out]
Accept(e) ==
    CASE e.op = "alone" -> Idle(open) /\ (e.call \in DOMAIN alone => alone[e.call] = Ans(e))
      [] e.op = "args" -> Idle(open) /\ (e.call \in DOMAIN args => args[e.call] = e.args)
      [] e.op = "begin" -> e.call \in DOMAIN alone
      [] e.op = "end" -> CanEnd(open, e.t, e.call) /\ Ans(e) = alone[e.call]
      [] OTHER -> FALSE
Init == l = 1 /\ alone = <<>> /\ args = <<>> /\ open = [t \in Threads |-> <<>>]
Next == /\ l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ alone' = IF e.op = "alone" THEN (e.call :> Ans(e)) @@ alone ELSE alone
           /\ args' = IF e.op = "args" THEN (e.call :> e.args) @@ args ELSE args
           /\ open' = IF e.op = "begin" THEN Begins(open, e.t, e.call) ELSE IF e.op = "end" THEN Ends(open, e.t) ELSE open
Spec == Init /\ [][Next]_vars
=============================================================================
