---------------------------- MODULE Gen_Selection ----------------------------
(* Every selection operation with every answer of the predicate on every    *)
(* small shape, to be replayed into the code.                               *)
EXTENDS Gen
VARIABLE done
Ops == {"filter", "mfilter", "make_filter", "cut", "make_cut", "findAll", "makeFindAll",
        "reject", "make_reject", "partition", "find", "makeFind"}
MaxN == IF Thorough THEN 7 ELSE 4
Cases == UNION {{<<[op |-> o, a |-> ans, b |-> is, c |-> 1, d |-> 2 + (n % 2)]>> : ans \in [1..n -> {0, 1}]} :
                o \in Ops, is \in 1..3, n \in 0..MaxN}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in Cases : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
