------------------------------ MODULE Trace_C13 ------------------------------
EXTENDS TraceBase, Memo
VARIABLES l, kept    \* every result returned so far in this behaviour
vars == <<l, cache, kept>>
Step(e) ==
    CASE e.op = "begin" -> cache' = <<>> /\ kept' = <<>>
      [] e.op = "call" ->
            IF e.res = "ok"
            THEN /\ Hit(e.in, e.ev, e.out[1]) \/ Miss(e.in, e.ev, e.out[1])
                 /\ e.after = e.in
                 /\ kept' = Append(kept, e.out[1])
            ELSE Fail(e.in, e.ev) /\ e.after = e.in /\ UNCHANGED kept
      [] e.op = "clear" -> Clear /\ UNCHANGED kept
      [] e.op = "kept" -> e.all = kept /\ UNCHANGED <<cache, kept>>
      [] OTHER -> FALSE
Init == l = 1 /\ cache = <<>> /\ kept = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
