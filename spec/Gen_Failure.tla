----------------------------- MODULE Gen_Failure -----------------------------
(* Histories of calls of one operation: whole (0), or failing at the first,    *)
(* second, last or no call of its function (1, 2, 3, 4), in one of two ways.   *)
EXTENDS GenHist
Cmds(h) == {[op |-> "call", a |-> w, b |-> x] : w \in 0..4, x \in {0, 3}}
Init == hist = <<>>
Next == Grow(Cmds)
Spec == Init /\ [][Next]_hist
=============================================================================
