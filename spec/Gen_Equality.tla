---------------------------- MODULE Gen_Equality -----------------------------
(* Pairs of short Series of every few shapes that differ nowhere or in one    *)
(* component by one amount; lists of up to four with one that differs.        *)
EXTENDS Gen
VARIABLE done
Sh == {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<0, 0>>} \cup IF Thorough THEN {<<3, 3>>, <<6, 2>>, <<4, 4>>} ELSE {}
C(r) == <<r>>
All == {C([op |-> "differ", a |-> sh, b |-> k, c |-> by]) : sh \in Sh, k \in 0..(IF Thorough THEN 15 ELSE 5), by \in {-3, -2, -1, 0, 1, 2, 3}}
  \cup {C([op |-> "shapes", a |-> s, b |-> t]) : s \in Sh, t \in Sh}
  \cup {C([op |-> "list", a |-> <<n, k, by>>]) : n \in 1..4, k \in 1..4, by \in {-1, 0, 2}}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in All : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
