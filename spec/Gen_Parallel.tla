----------------------------- MODULE Gen_Parallel ----------------------------
(* Every order in which the jobs of one call can start and end (k: job k     *)
(* starts, -k: it ends), with every set of failing jobs.                     *)
EXTENDS Gen, FiniteSets, SequencesExt, FiniteSetsExt
VARIABLE done
RECURSIVE Orders(_, _, _)
Orders(todo, run, pre) ==
    IF todo = {} /\ run = {} THEN {pre}
    ELSE UNION {Orders(todo \ {k}, run \cup {k}, Append(pre, k)) : k \in todo}
         \cup UNION {Orders(todo, run \ {k}, Append(pre, -k)) : k \in run}
Cases(n, bads) == UNION {{<<[op |-> "s", a |-> n, b |-> o, c |-> SetToSeq(f), d |-> kind]>> :
                   o \in Orders(1..n, {}, <<>>), kind \in IF f = {} THEN {0} ELSE IF Thorough /\ n < 4 THEN 0..2 ELSE {(Cardinality(f) + n) % 3}} : f \in bads}
All == Cases(1, SUBSET {1}) \cup Cases(2, SUBSET (1..2)) \cup Cases(3, SUBSET (1..3))
       \cup (IF Thorough THEN Cases(4, {{}} \cup {{k} : k \in 1..4}) ELSE {})
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in All : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
