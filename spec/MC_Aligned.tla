----------------------------- MODULE MC_Aligned ------------------------------
(* Selecting from several Series: one shared index list, built step by step, *)
(* keeps them aligned; against the operators used to judge the code.         *)
EXTENDS Selection
CONSTANTS MaxN, Vals
VARIABLES ss, ans, i, kept
vars == <<ss, ans, i, kept>>
One == UNION {{Mk(is, n, 2, v) : v \in [1..(is * n) -> Vals]} : is \in 1..2, n \in 0..MaxN}
Init == /\ ss \in {p \in One \X One : SameCounts(p)}
        /\ ans \in [1..ss[1].n -> {0, 1}]
        /\ i = 0 /\ kept = <<>>
Step == /\ i < ss[1].n /\ i' = i + 1
        /\ kept' = IF ans[i + 1] = 1 THEN Append(kept, <<Item(ss[1], i + 1), Item(ss[2], i + 1)>>) ELSE kept
        /\ UNCHANGED <<ss, ans>>
Next == Step
Spec == Init /\ [][Next]_vars
\* Row k of the result is a row of the input: the Series stay aligned.
Aligned == LET f == FilterAll(ss, ans) IN
    /\ SameCounts(f)
    /\ i = ss[1].n => /\ Len(kept) = f[1].n
                      /\ \A k \in 1..f[1].n : kept[k] = <<Item(f[1], k), Item(f[2], k)>>
    /\ RejectAll(ss, [k \in 1..ss[1].n |-> 1 - ans[k]]) = f
    /\ FilterAll(ss, ans)[1] = Filter(ss[1], ans)
=============================================================================
