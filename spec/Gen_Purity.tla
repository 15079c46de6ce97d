------------------------------ MODULE Gen_Purity -----------------------------
(* Histories of calls of three operations, each with two sets of arguments.   *)
EXTENDS GenHist
Cmds(h) == {[op |-> "call", a |-> f, b |-> x] : f \in 0..2, x \in 0..1}
Init == hist = <<>>
Next == Grow(Cmds)
Spec == Init /\ [][Next]_hist
=============================================================================
