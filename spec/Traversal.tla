----------------------------- MODULE Traversal -------------------------------
(***************************************************************************)
(* C08: calling a function on every item.  A function is the sequence of   *)
(* results it gives, one (a sequence of values) per call.                  *)
(***************************************************************************)
EXTENDS Series

Row(ss, k) == [j \in 1..Len(ss) |-> Item(ss[j], k)]

\* The calls made so far: exactly the first Len(ci) items, in order, each with
\* its own index and values.
CallsInOrder(ss, ci, cv) ==
    /\ Len(ci) = Len(cv) /\ Len(ci) <= ss[1].n
    /\ \A k \in 1..Len(ci) : ci[k] = k - 1 /\ cv[k] = Row(ss, k)

Uniform(ret) == \A k \in 2..Len(ret) : Len(ret[k]) = Len(ret[1])
MapResult(ss, ret) == FromItems(Len(ret[1]), ss[1].dim, ret)

\* Folding: each result is the accumulator of the next call.
Chained(init, acc, ret) ==
    /\ Len(acc) = Len(ret)
    /\ \A k \in 1..Len(acc) : acc[k] = IF k = 1 THEN init ELSE ret[k - 1]
Folded(init, ret) == IF ret = <<>> THEN init ELSE ret[Len(ret)]
\* Choosing between two functions: the checks made so far (asked), in order, and
\* the calls of the chosen functions (who: 1 or 2), in order, none before its check.
ChoicesInOrder(ss, ans, asked, who, ci, cv) ==
    /\ CallsInOrder(ss, [k \in 1..Len(asked) |-> k - 1], asked)
    /\ CallsInOrder(ss, ci, cv)
    /\ Len(who) = Len(ci) /\ Len(ci) <= Len(asked)
    /\ \A k \in 1..Len(who) : who[k] = IF ans[k] = 1 THEN 1 ELSE 2
Counts(ss) == \A k \in 1..Len(ss) : ss[k].n = ss[1].n
=============================================================================
