----------------------------- MODULE Gen_Render ------------------------------
(* Short arrays, Series of every small shape and lists of them, each stream.  *)
EXTENDS Gen
VARIABLE done
C(r) == <<r>>
Vals == {-10, 0, 3, 3999996, 100000003}
Arrays == UNION {[1..n -> Vals] : n \in 0..(IF Thorough THEN 4 ELSE 3)}
Shapes == {<<is, n, d>> : is \in 1..4, n \in 0..3, d \in 2..3}
All == {C([op |-> "array", a |-> v, b |-> t, c |-> 0]) : v \in Arrays, t \in {0, 2}}
  \cup {C([op |-> "array", a |-> v, b |-> t, c |-> 1]) : v \in {w \in Arrays : \A k \in 1..Len(w) : w[k] < 100000000}, t \in {1, 3}}
  \cup {C([op |-> "serie", a |-> sh, b |-> [k \in 1..(sh[1] * sh[2]) |-> k * m - 5], c |-> t]) : sh \in Shapes, t \in 0..3, m \in {1, 4, -3}}
  \cup {C([op |-> "dump", a |-> sh, b |-> [k \in 1..(sh[1] * sh[2]) |-> k * m - 5], c |-> t]) : sh \in Shapes, t \in 0..3, m \in {1, 4, -3}}
  \cup {C([op |-> "list", a |-> p, b |-> t]) : p \in UNION {[1..n -> 0..4] : n \in 0..(IF Thorough THEN 4 ELSE 3)}, t \in {0, 2}}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in All : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
