------------------------------ MODULE GenHist --------------------------------
(* Histories: every sequence of commands of the given length, or, under      *)
(* simulation, random ones. A module that extends this one defines Commands  *)
(* (and which commands may follow a history).                                *)
EXTENDS Gen
VARIABLE hist
Grow(Cmds(_)) == Len(hist) < Depth /\ \E c \in Cmds(hist) : hist' = Append(hist, c)
Printed == Len(hist) = Depth => Emit(hist)
=============================================================================
