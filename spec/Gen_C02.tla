------------------------------- MODULE Gen_C02 -------------------------------
EXTENDS GenHist
Cs == {[op |-> "copy", a |-> d, b |-> q, c |-> h] : d, q \in 0..1, h \in {0, 1, 2}}
  \cup {[op |-> "write", a |-> d, b |-> 1, c |-> h] : d \in 0..1, h \in 0..1}
  \cup {[op |-> "recount", a |-> d, b |-> n] : d \in 0..1, n \in {0, 2}}
  \cup {[op |-> "kill", a |-> 0]} \cup {[op |-> "store", a |-> 0, b |-> d, c |-> 0] : d \in 0..1}
  \cup {[op |-> "fetch", a |-> d, b |-> 0, c |-> 0] : d \in 0..1} \cup {[op |-> "through", a |-> 0, b |-> 1], [op |-> "drop", a |-> 0]}
Cmds(h) == Cs
Init == hist = <<>>
Next == Grow(Cmds)
Spec == Init /\ [][Next]_hist
=============================================================================
