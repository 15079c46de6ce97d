------------------------------- MODULE Gen_C01 -------------------------------
EXTENDS GenHist
News == {[op |-> "new", a |-> is, b |-> n, c |-> h] : is \in 0..2, n \in 0..2, h \in 0..1}
Others == {[op |-> "recount", a |-> n] : n \in 0..2}
  \cup {[op |-> o, a |-> i, b |-> h] : o \in {"readitem", "readscalar", "writescalar"}, i \in {0, 1, 2, 4}, h \in 0..1}
  \cup {[op |-> "writeitem", a |-> i, b |-> w, c |-> h] : i \in 0..2, w \in 1..2, h \in 0..1}
Cmds(h) == IF h = <<>> THEN News ELSE Others
Init == hist = <<>>
Next == Grow(Cmds)
Spec == Init /\ [][Next]_hist
=============================================================================
