----------------------------- MODULE Gen_Aligned -----------------------------
(* Every selection over two or three small Series with every answer, and     *)
(* every way the counts can differ.                                          *)
EXTENDS Gen
VARIABLE done
Ops == {"filter", "reject", "make_reject", "make_filter", "filterAll", "rejectAll", "make_filterAll", "make_rejectAll"}
MaxN == IF Thorough THEN 5 ELSE 3
Good == UNION {{<<[op |-> o, a |-> ans, b |-> is, c |-> [k \in 1..Len(is) |-> n]]>> : ans \in [1..n -> {0, 1}]} :
               o \in Ops, is \in {<<1, 1>>, <<2, 1>>, <<1, 3, 2>>, <<2, 2, 1, 1>>}, n \in 0..MaxN}
Bad == UNION {{<<[op |-> o, a |-> [k \in 1..n[1] |-> 1], b |-> [k \in 1..m |-> 1 + (k % 2)], c |-> n]>> :
               n \in {q \in [1..m -> 0..2] : \E k \in 2..m : q[k] # q[1]}} : o \in Ops, m \in 2..(IF Thorough THEN 4 ELSE 3)}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in Good \cup Bad : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
