--------------------------- MODULE Gen_Attributes ----------------------------
(* What is stored (name, item size, dimension by number) and which           *)
(* decomposers are there, in every order; then everything is asked.          *)
EXTENDS GenHist
Puts == {[op |-> "put", a |-> n, b |-> is, c |-> d] : n \in 0..5, is \in IF Thorough THEN 0..6 ELSE {0, 2, 4}, d \in 2..3}
Decs == {[op |-> "dec", a |-> k] : k \in 0..7}
Cmds(h) == IF Len(h) = 0 THEN Puts
           ELSE IF Len(h) = Depth - 1 THEN Decs
           ELSE Puts \cup Decs \cup {[op |-> "del", a |-> 0], [op |-> "clear"]}
Init == hist = <<>>
Next == Grow(Cmds)
Spec == Init /\ [][Next]_hist
=============================================================================
