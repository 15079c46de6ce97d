------------------------------ MODULE Gen_Stats ------------------------------
(* Every short Serie over few values, for every statistic.                    *)
EXTENDS Gen
VARIABLE done
Vals == IF Thorough THEN {-3, 0, 1, 2} ELSE {-3, 0, 2}
Seqs == UNION {[1..n -> Vals] : n \in 0..(IF Thorough THEN 4 ELSE 3)}
Wide == {s \in UNION {[1..n -> Vals] : n \in {2, 3, 4}} : TRUE}
Which == IOEnv.GEN_WHICH
C(r) == <<r>>
Moments == {C([op |-> o, a |-> 1, b |-> s]) : o \in {"mean", "minmax", "norm"}, s \in Seqs}
      \cup {C([op |-> o, a |-> 2, b |-> s]) : o \in {"mean", "minmax", "norm"}, s \in {t \in Wide : Len(t) # 3}}
      \cup {C([op |-> o, a |-> 3, b |-> s]) : o \in {"mean", "minmax", "norm"}, s \in {t \in Wide : Len(t) = 3}}
      \cup {C([op |-> "cov", a |-> s, b |-> t]) : s \in {u \in Seqs : Len(u) <= 3}, t \in {<<>>, <<1>>, <<2, -1>>, <<1, 1>>, <<0, 3, 1>>, <<-5, 1, 2>>}}
Orders == {C([op |-> "quantile", a |-> s, b |-> p[1], c |-> p[2]]) : s \in Seqs, p \in {<<0, 1>>, <<1, 8>>, <<1, 3>>, <<1, 2>>, <<2, 3>>, <<7, 8>>, <<1, 1>>}}
      \cup {C([op |-> "quartiles", a |-> s]) : s \in Seqs}
      \cup {C([op |-> "outliers", a |-> s, b |-> k]) : s \in Seqs, k \in {0, 1, 4, 12}}
Bins == {C([op |-> "auto", a |-> s, b |-> nb]) : s \in Seqs, nb \in {1, 5}}
      \cup {C([op |-> "range", a |-> s, b |-> p[1], c |-> p[2], d |-> p[3]]) : s \in Seqs, p \in {<<1, -3, 2>>, <<2, -4, 2>>, <<3, -3, 3>>, <<5, -5, 5>>, <<2, -2, 6>>, <<1, 5, 9>>}}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A c \in (CASE Which = "moments" -> Moments [] Which = "orders" -> Orders [] OTHER -> Bins) : Emit(c)
Spec == Init /\ [][Next]_done
=============================================================================
