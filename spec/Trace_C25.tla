------------------------------ MODULE Trace_C25 ------------------------------
EXTENDS TraceBase, Random
VARIABLES l, known
vars == <<l, known>>
KeyOf(e) == <<<<e.n, e.is, e.lo, e.hi>>, e.n, e.is, e.fine, e.seed>>
Answer(e) == [id |-> e.id, some |-> IF e.fine THEN {Spot(e.s, k) : k \in 1..Min2(Len(e.s.p), 12)} ELSE {}]
Good(e) ==
           e.res = "ok" /\ Shaped(e.s, e.n, e.is) /\ Bounded(e.s)
Step(e) ==
    CASE e.op = "random" ->
            /\ Good(e)
            /\ e.fine => Varied(e.s) /\ Spread(e.s) /\ (e.n = 0 \/ Sole(known, KeyOf(e), Answer(e)))
            /\ Repeats(known, KeyOf(e), Answer(e))
      \* a seed of its own: unlike any before, which is remembered under its own name
      [] e.op = "fresh" -> Good(e) /\ Varied(e.s) /\ Spread(e.s) /\ (e.n = 0 \/ \A k \in DOMAIN known : known[k].id # e.id)
      [] OTHER -> FALSE
Learned(e) == IF e.op = "random" THEN (KeyOf(e) :> Answer(e)) @@ known
              ELSE (<<<<e.n, e.is, "fresh">>, e.n, e.is, TRUE, e.id>> :> [id |-> e.id, some |-> {}]) @@ known
Init == l = 1 /\ known = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) = TRUE /\ known' = Learned(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
