------------------------------ MODULE Trace_C27 ------------------------------
EXTENDS TraceBase, Failure
VARIABLES l, memory,   \* what each case did when nothing failed
          done         \* what the thing that is kept has answered so far
vars == <<l, memory, done>>
Whole(e) == [f |-> e.f, args |-> e.before, res |-> e.res, log |-> e.log, out |-> e.out]
Before(e) == IF e.new THEN {} ELSE done
\* A memoized function is not called again for what it has answered; what failed is not answered.
CallsOf(m, e) == IF m.memo /\ e.before \in Before(e) THEN <<>> ELSE m.log
Accept(e) ==
    /\ e.after = e.before
    /\ CASE e.op = "full" -> <<e.case, -1>> \in DOMAIN memory => memory[<<e.case, -1>>] = Whole(e)
         [] e.op = "fail" ->
              /\ <<e.case, -1>> \in DOMAIN memory
              /\ LET m == memory[<<e.case, -1>>] IN
                 /\ m.f = e.f /\ m.args = e.before
                 /\ e.log = Until(m.log, e.k)
                 /\ (m.res = "ok" \/ Reaches(m.log, e.k)) => e.caught = Ending(m.log, e.k, e.thrown)
                 /\ Reaches(m.log, e.k) => e.none
                 /\ e.left = 0
         [] e.op = "alone" -> e.res = "ok"
         [] e.op = "kept" ->
              /\ <<e.case, e.arg>> \in DOMAIN memory
              /\ LET m == memory[<<e.case, e.arg>>]
                     calls == CallsOf(m, e) IN
                 /\ m.in = e.before /\ e.log = Until(calls, e.k) /\ e.left = 0
                 /\ e.caught = Ending(calls, e.k, e.thrown)
                 /\ e.out = IF Reaches(calls, e.k) THEN <<>> ELSE m.out
         [] OTHER -> FALSE
Init == l = 1 /\ memory = <<>> /\ done = {}
Next == /\ l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
        /\ memory' = CASE Trace[l].op = "full" -> (<<Trace[l].case, -1>> :> Whole(Trace[l])) @@ memory
                       [] Trace[l].op = "alone" -> (<<Trace[l].case, Trace[l].arg>> :> Trace[l]) @@ memory
                       [] OTHER -> memory
        /\ done' = IF Trace[l].op # "kept" THEN done
                   ELSE Before(Trace[l]) \cup (IF Reaches(CallsOf(memory[<<Trace[l].case, Trace[l].arg>>], Trace[l]), Trace[l].k) THEN {} ELSE {Trace[l].before})
Spec == Init /\ [][Next]_vars
=============================================================================
