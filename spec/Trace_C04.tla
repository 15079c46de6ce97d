------------------------------ MODULE Trace_C04 ------------------------------
EXTENDS Trace_Attr

AcceptNames(e) ==
    LET got == Range1(e.list) IN
    /\ StrictlySorted(e.list)
    /\ got \subseteq Listed(fr, ds, e.is, dim)
    /\ ListedAtLeast(fr, ds, e.is, dim) \subseteq got
    /\ \A k \in 1..Len(e.asked) : e.has[k] = (e.asked[k] \in got)

AcceptSerie(e) ==
    LET own == [k \in 1..Len(e.own) |-> e.own[k].o] IN
    /\ Len(own) = Len(ds)
    /\ IF e.name \in DOMAIN fr /\ fr[e.name].is = e.is
       THEN e.iv = fr[e.name]                               \* the stored Serie wins
       ELSE IF Right(own, e.is) # {} THEN e.o = own[First(Right(own, e.is))]
       ELSE \/ ~Valid(e.o)
            \/ \E k \in 1..Len(own) : Valid(own[k]) /\ e.o = own[k]
    /\ e.name \in Listed(fr, ds, e.is, dim) => e.o.is = e.is
    /\ (~\E k \in 1..Len(ds) : Answers(ds[k], fr, e.is, e.name))
         /\ ~(e.name \in DOMAIN fr /\ fr[e.name].is = e.is) => ~Valid(e.o)

Step(e) == CASE e.op = "names" -> AcceptNames(e) /\ UNCHANGED <<fr, ds, dim>>
             [] e.op = "serie" -> AcceptSerie(e) /\ UNCHANGED <<fr, ds, dim>>
             [] e.op = "eigen" -> UNCHANGED <<fr, ds, dim>>
             [] OTHER -> History(e)
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
