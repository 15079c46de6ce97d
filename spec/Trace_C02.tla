------------------------------ MODULE Trace_C02 ------------------------------
EXTENDS TraceBase, SerieObject
VARIABLE l
vars == <<l, objs, frame>>
Step(e) ==
    /\ CASE e.op = "begin" -> objs' = <<Blank, Blank, Blank>> /\ frame' = <<Blank, Blank>>
         [] e.op = "nop" -> UNCHANGED <<objs, frame>>
         [] e.op = "new" -> New(e.d, e.v)
         [] e.op = "copy" -> Copy(e.d, e.q)
         [] e.op = "item" -> SetItem(e.d, e.i, e.v)
         [] e.op = "scalar" -> SetScalar(e.d, e.i, e.v)
         [] e.op = "recount" -> ReCount(e.d, e.i, e.z)
         [] e.op = "kill" -> Destroy(e.d)
         [] e.op = "store" -> Store(e.d, e.q)
         [] e.op = "fetch" -> Fetch(e.d, e.q)
         [] e.op = "framescalar" -> SetStored(e.d, e.i, e.v)
         [] e.op = "drop" -> Drop(e.d)
         [] OTHER -> FALSE
    \* Everything, not only what was addressed, is as the specification says.
    /\ e.all = objs' /\ e.fr = frame'
Init == l = 1 /\ objs = <<Blank, Blank, Blank>> /\ frame = <<Blank, Blank>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
