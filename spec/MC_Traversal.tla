---------------------------- MODULE MC_Traversal -----------------------------
(* One machine for all traversals: an index, the calls made, the results and *)
(* the accumulator. Every small pair of Series, every result of every call.  *)
EXTENDS Traversal
CONSTANTS MaxN, Vals
\* choosing: the function called is chosen by a check of the item (asked, ans, who).
VARIABLES ss, i, ci, cv, acc, ret, failed, choosing, asked, ans, who
vars == <<ss, i, ci, cv, acc, ret, failed, choosing, asked, ans, who>>
One == UNION {{Mk(is, n, 2, v) : v \in [1..(is * n) -> Vals]} : is \in 1..2, n \in 0..MaxN}
Results == UNION {[1..k -> Vals] : k \in 1..2}
Start == <<0>>
Init == /\ ss \in {<<s>> : s \in One} \cup (One \X One)
        /\ i = 0 /\ ci = <<>> /\ cv = <<>> /\ acc = <<>> /\ ret = <<>> /\ failed = FALSE
        /\ choosing \in {FALSE} \cup {Len(ss) = 1} /\ asked = <<>> /\ ans = <<>> /\ who = <<>>
choice == <<choosing, asked, ans, who>>
Ask(a) == /\ choosing /\ ~failed /\ Len(asked) = i /\ i < ss[1].n
          /\ asked' = Append(asked, Row(ss, i + 1)) /\ ans' = Append(ans, a)
          /\ UNCHANGED <<ss, i, ci, cv, acc, ret, failed, choosing, who>>
Refuse == i = 0 /\ ~Counts(ss) /\ ~failed /\ failed' = TRUE /\ UNCHANGED <<ss, i, ci, cv, acc, ret, choice>>
Call(r) == /\ Counts(ss) /\ ~failed /\ i < ss[1].n
           /\ i' = i + 1 /\ ci' = Append(ci, i) /\ cv' = Append(cv, Row(ss, i + 1))
           /\ acc' = Append(acc, Folded(Start, ret))
           /\ ret' = Append(ret, r)
           /\ failed' = (ret # <<>> /\ Len(r) # Len(ret[1]))     \* map: a result of another size
           /\ choosing => Len(asked) = i + 1
           /\ who' = IF choosing THEN Append(who, IF ans[i + 1] = 1 THEN 1 ELSE 2) ELSE who
           /\ UNCHANGED <<ss, choosing, asked, ans>>
Next == Refuse \/ (\E a \in 0..1 : Ask(a)) \/ \E r \in Results : Call(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ordered == CallsInOrder(ss, ci, cv)
Chosen == choosing => ChoicesInOrder(ss, ans, asked, who, ci, cv) /\ Len(asked) <= Len(ci) + 1
Chain == Chained(Start, acc, ret)
Maps == (~failed /\ i = ss[1].n /\ i > 0) =>
            LET m == MapResult(ss, ret) IN
            WF(m) /\ m.n = ss[1].n /\ \A k \in 1..m.n : Item(m, k) = ret[k]
FailsOnlyWhenItMust == failed => ~Counts(ss) \/ ~Uniform(ret)
Ends == <>(failed \/ i = ss[1].n)
=============================================================================
