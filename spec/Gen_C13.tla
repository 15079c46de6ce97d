------------------------------- MODULE Gen_C13 -------------------------------
(* Histories of calls (with input number a; b: it fails), clears, and writes *)
(* into the caller's own input object.                                       *)
EXTENDS GenHist
K == 4
Cmds(h) == {[op |-> "call", a |-> i, b |-> 0] : i \in 0..(K - 1)} \cup {[op |-> "call", a |-> i, b |-> 1] : i \in 0..1}
           \cup {[op |-> "clear"], [op |-> "spoil"]}
Init == hist = <<>>
Next == Grow(Cmds)
Spec == Init /\ [][Next]_hist
=============================================================================
