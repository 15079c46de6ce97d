----------------------------- MODULE Gen_Random ------------------------------
(* Histories of calls with a few arguments, alone or two at a time.           *)
EXTENDS GenHist
Cmds(h) == {[op |-> "call", a |-> i] : i \in 1..6} \cup {[op |-> "pair", a |-> i, b |-> j] : i, j \in {1, 2, 4}} \cup {[op |-> "fresh", a |-> 2, b |-> 2]}
Init == hist = <<>>
Next == Grow(Cmds)
Spec == Init /\ [][Next]_hist
=============================================================================
