------------------------------ MODULE Trace_C03 ------------------------------
EXTENDS TraceBase, DataframeStore
VARIABLES l, fs
vars == <<l, fs>>

\* The recorded contents are exactly the map, each name once.
Shows(c, f) == /\ Len(c) = Cardinality(Names(f))
               /\ {c[k].name : k \in 1..Len(c)} = Names(f)
               /\ \A k \in 1..Len(c) : c[k].s = f.m[c[k].name]
To(e, f) == fs' = [fs EXCEPT ![e.f] = f]
F(e) == fs[e.f]

Step(e) ==
    /\ CASE e.op = "begin" -> fs' = <<Empty(e.c[1]), Empty(e.c[2])>>
         [] e.op = "add" -> To(e, Added(F(e), e.name, e.s))
         [] e.op = "create" -> To(e, Added(F(e), e.name, Zeros(e.is, e.c, 3, e.z)))
         [] e.op = "del" -> To(e, Deleted(F(e), e.name))
         [] e.op = "clear" -> To(e, Cleared(F(e)))
         [] e.op = "setCount" -> To(e, Counted(F(e), e.c, e.z))
         [] e.op = "copy" -> fs' = <<F(e), F(e)>>
         [] e.op = "assign" -> To(e, Assigned(F(e), e.name, e.s))
         [] e.op = "reach" -> To(e, Reached(F(e), e.name)) /\ e.got = Looked(F(e), e.name)
         [] e.op = "look" -> /\ UNCHANGED fs /\ e.valid = Valid(Looked(F(e), e.name))
                             /\ e.name \in Names(F(e)) => e.got = F(e).m[e.name]
         [] e.op = "contains" -> UNCHANGED fs /\ e.got = (e.name \in Names(F(e)))
         [] e.op = "identity" -> /\ UNCHANGED fs /\ e.same /\ ~e.equal /\ ~e.other
                                 /\ e.called = e.name /\ e.copied = ""
         [] OTHER -> FALSE
    /\ \A k \in 1..2 : Shows(e.all[k], fs'[k])
Init == l = 1 /\ fs = <<Empty(0), Empty(0)>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
