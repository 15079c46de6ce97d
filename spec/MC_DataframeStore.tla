-------------------------- MODULE MC_DataframeStore --------------------------
(* Every history of a Dataframe over two names and small Series, against a   *)
(* log of what was last done to each name.                                   *)
EXTENDS DataframeStore
CONSTANTS Ns, MaxC, MaxLen
VARIABLES f, last, steps       \* last[n]: the Serie that should be read back, or Nothing
vars == <<f, last, steps>>
Nothing == [none |-> TRUE]
Ss == {Mk(is, n, d, [k \in 1..(is * n) |-> 7]) : is \in 1..2, n \in 0..MaxC, d \in {2, 3}}
Init == \E c \in 0..MaxC : f = Empty(c) /\ last = [n \in Ns |-> Nothing] /\ steps = 0
Has(n) == last[n] # Nothing
Next ==
    /\ steps' = steps + 1
    /\ \/ \E n \in Ns, s \in Ss : f' = Added(f, n, s) /\ last' = [last EXCEPT ![n] = s]
       \/ \E n \in Ns, s \in Ss : f' = Assigned(f, n, s) /\ last' = [last EXCEPT ![n] = s]
       \/ \E n \in Ns : f' = Deleted(f, n) /\ last' = [last EXCEPT ![n] = Nothing]
       \/ \E n \in Ns : f' = Reached(f, n) /\ last' = [last EXCEPT ![n] = IF Has(n) THEN @ ELSE Blank]
       \/ f' = Cleared(f) /\ last' = [n \in Ns |-> Nothing]
       \/ \E c \in 0..MaxC : /\ f' = Counted(f, c, 0)
                             /\ last' = IF c = 0 \/ c = f.cnt THEN last
                                        ELSE [n \in Ns |-> IF Has(n) THEN Zeros(last[n].is, c, last[n].dim, 0) ELSE Nothing]
Spec == Init /\ [][Next]_vars
Bound == steps < MaxLen
ReadsBack == Names(f) = {n \in Ns : Has(n)} /\ \A n \in Names(f) : f.m[n] = last[n]
Shaped == \A n \in Names(f) : WF(f.m[n])
CountOnlyBySetCountOnceKnown == [][f.cnt # 0 /\ f'.cnt # f.cnt => \A n \in Names(f') : f'.m[n].n = f'.cnt]_vars
=============================================================================
