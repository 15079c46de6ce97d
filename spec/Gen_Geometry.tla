---------------------------- MODULE Gen_Geometry -----------------------------
(* Every grid of few points, every triangle over few nodes, short inputs that *)
(* fit or do not.                                                             *)
EXTENDS Gen
VARIABLE done
N == IF Thorough THEN 5 ELSE 3
Dims == {<<>>, <<2, 1, 2, 1>>} \cup UNION {[1..k -> 0..N] : k \in 1..3}
C(r) == <<r>>
All == {C([op |-> o, a |-> d]) : o \in {"dims", "points"}, d \in Dims}
  \cup {C([op |-> "mesh", a |-> t]) : t \in [1..3 -> 0..3] \cup {s \o t : s, t \in {<<0, 1, 2>>, <<2, 1, 3>>, <<3, 3, 0>>, <<1, 2, 0>>}}}
  \cup {C([op |-> "shape", a |-> p, b |-> t]) : p, t \in {<<0, 0>>, <<1, 3>>, <<2, 3>>, <<3, 0>>, <<3, 2>>, <<3, 3>>, <<4, 3>>}}
  \cup {C([op |-> "insar", a |-> u, b |-> n]) : u \in {<<0, 0>>, <<1, 3>>, <<3, 0>>, <<3, 1>>, <<3, 4>>, <<6, 2>>}, n \in 0..4}
  \cup {C([op |-> "fringes", a |-> i, b |-> m]) : i \in -8..8, m \in 1..5}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in All : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
