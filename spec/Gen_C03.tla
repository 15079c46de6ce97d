------------------------------- MODULE Gen_C03 -------------------------------
(* Histories of a Dataframe over the names "" and "aa" (0 and 2).            *)
EXTENDS GenHist
Ns == {0, 2}
Cs == {[op |-> o, a |-> n, b |-> x, c |-> 1 + x] : o \in {"add", "assign"}, n \in Ns, x \in 0..1}
  \cup {[op |-> "create", a |-> n, b |-> 0, c |-> 0] : n \in Ns}
  \cup {[op |-> o, a |-> n, b |-> 0] : o \in {"del", "look", "reach", "contains", "identity"}, n \in Ns}
  \cup {[op |-> "move", a |-> n, b |-> b, c |-> m] : n \in Ns, m \in Ns, b \in {0, 6}}
  \cup {[op |-> "twin", a |-> n, b |-> b] : n \in Ns, b \in 0..1}
  \cup {[op |-> "clear", a |-> 0]} \cup {[op |-> "setCount", a |-> 0, b |-> 0, c |-> c] : c \in 0..2}
Starts == {[op |-> "setCount", a |-> 0, b |-> 0, c |-> 0, d |-> c] : c \in {0, 2}}
Cmds(h) == IF h = <<>> THEN Starts ELSE Cs
Init == hist = <<>>
Next == Grow(Cmds)
Spec == Init /\ [][Next]_hist
=============================================================================
