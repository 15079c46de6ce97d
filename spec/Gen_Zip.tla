------------------------------- MODULE Gen_Zip -------------------------------
EXTENDS Gen
VARIABLE done
W == IF Thorough THEN 4 ELSE 3
Z == {<<[op |-> o, a |-> is, b |-> [q \in 1..Len(is) |-> IF q = odd THEN m ELSE n], c |-> h]>> :
      o \in {"zip"}, is \in [1..1 -> 1..3] \cup [1..2 -> 0..W] \cup [1..3 -> 1..2], n \in 0..2, m \in 1..2, odd \in {2, 9}, h \in 0..1}
R == {<<[op |-> "round", a |-> is, b |-> [q \in 1..Len(is) |-> n], c |-> h]>> :
      is \in [1..2 -> 1..3] \cup [1..3 -> 1..3] \cup [1..4 -> 1..2], n \in 0..2, h \in 0..1}
U == {<<[op |-> "unzip", a |-> z, b |-> <<n>>, c |-> is]>> : z \in [1..1 -> 0..W] \cup [1..2 -> 0..W] \cup [1..3 -> 0..W], n \in 0..2, is \in 1..4}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in Z \cup R \cup U : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
