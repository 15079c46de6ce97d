------------------------------ MODULE Gen_Arith ------------------------------
(* Every operation with operands of every combination of few shapes, fitting  *)
(* or not.                                                                    *)
EXTENDS Gen
VARIABLE done
Sh == {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 0>>} \cup IF Thorough THEN {<<1, 6>>, <<2, 3>>, <<3, 2>>, <<3, 1>>, <<6, 1>>} ELSE {}
Few == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
C(op, a, b) == <<[op |-> op, a |-> a, b |-> b]>>
All == {C(o, s, 0) : o \in {"add", "sub", "mulc", "sclc", "neg", "addc", "subc"}, s \in Sh}
  \cup {C(o, s \o t, 0) : o \in {"add", "sub", "mult", "scale"}, s \in Sh, t \in Sh}
  \cup {C(o, s \o t \o u, 0) : o \in {"add", "sub"}, s \in Few, t \in Few, u \in Few}
  \cup {C(o, s \o t \o u \o s, 0) : o \in {"add", "sub"}, s \in Few, t \in Few, u \in Few}
  \cup {C("weighted", s \o t, w) : s \in Few, t \in Few, w \in 1..3} \cup {C("weighted", s, w) : s \in Sh, w \in 1..2}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in All : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
