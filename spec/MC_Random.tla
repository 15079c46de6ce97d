------------------------------ MODULE MC_Random ------------------------------
(* Callers that draw one value at a time, interleaved in every way. With a    *)
(* generator of their own the values depend on their arguments alone; with a  *)
(* shared one (Shared = TRUE) they do not, and Repeatable fails.              *)
EXTENDS Random, IOUtils
CONSTANT Shared
Big == IOEnv.TIER = "thorough"
Callers == IF Big THEN 1..3 ELSE 1..2
Calls == IF Big THEN 4 ELSE 3           \* how many calls are made in all
Seeds == 1..2
Counts == 0..2
Modulus == 31
StepOf(g) == (g * 3) % Modulus          \* 3 generates all of 1..30
VARIABLES gen,     \* the state of the shared generator
          busy,    \* what each caller is doing
          past,    \* what every call gave
          left
vars == <<gen, busy, past, left>>
Idle == [seed |-> 0, n |-> 0, g |-> 0, got |-> <<>>]
Init == gen = 1 /\ busy = [c \in Callers |-> Idle] /\ past = {} /\ left = Calls
Start(c, s, n) == /\ busy[c] = Idle /\ left > 0 /\ left' = left - 1
                  /\ busy' = [busy EXCEPT ![c] = [seed |-> s, n |-> n, g |-> s, got |-> <<>>]]
                  /\ gen' = s /\ UNCHANGED past
Draw(c) == /\ busy[c].seed > 0 /\ Len(busy[c].got) < 2 * busy[c].n
           /\ LET g == StepOf(IF Shared THEN gen ELSE busy[c].g) IN
              busy' = [busy EXCEPT ![c].g = g, ![c].got = Append(@, g)] /\ gen' = g
           /\ UNCHANGED <<past, left>>
Finish(c) == /\ busy[c].seed > 0 /\ Len(busy[c].got) = 2 * busy[c].n
             /\ past' = past \cup {<<busy[c].seed, busy[c].n, busy[c].got>>}
             /\ busy' = [busy EXCEPT ![c] = Idle] /\ UNCHANGED <<gen, left>>
Next == \E c \in Callers : Draw(c) \/ Finish(c) \/ \E s \in Seeds, n \in Counts : Start(c, s, n)
Spec == Init /\ [][Next]_vars
Repeatable == \A a, b \in past : a[1] = b[1] /\ a[2] = b[2] => a[3] = b[3]
SeedsDiffer == \A a, b \in past : a[1] # b[1] /\ a[2] = b[2] /\ a[2] > 0 => a[3] # b[3]
AsSerie(a) == [is |-> 2, n |-> a[2], dim |-> 3, p |-> a[3], q |-> a[3]]
Good == \A a \in past : LET s == AsSerie(a) IN Shaped(s, a[2], 2) /\ Bounded(s) /\ Varied(s) /\ Spread(s)
=============================================================================
