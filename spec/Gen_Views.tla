------------------------------ MODULE Gen_Views ------------------------------
(* Histories of commands on two Vectors of each of two sizes and two Matrices. *)
EXTENDS GenHist
P == 1..3
R(op, a, b, c) == [op |-> op, a |-> a, b |-> b, c |-> c]
Cmds(h) == {R(o, a, b, 2) : o \in {"add", "sub", "mul", "chain"}, a \in 1..2, b \in P} \cup {R("scale", a, 0, -2) : a \in 1..2} \cup {R("copy", a, b, 0) : a \in 1..2, b \in P}
      \cup {R("tr", a, b, 0) : a, b \in 1..2} \cup {R("mm", a, b, c) : a \in 1..2, b \in P, c \in 1..2} \cup {R("mv", a, b, c) : a \in {1, 3}, b \in 1..2, c \in P}
      \cup {R("mat", a, k, n) : a \in 1..2, k \in 0..1, n \in 2..3} \cup {R("mcopy", 1, 2, 0), R("mcopy", 2, 1, 0), R("mcopy", 1, 1, 0)}
Init == hist = <<>>
Next == Grow(Cmds)
Spec == Init /\ [][Next]_hist
=============================================================================
