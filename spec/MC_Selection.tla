---------------------------- MODULE MC_Selection -----------------------------
(***************************************************************************)
(* The selection algorithms as the state machine a user observes (ask the  *)
(* predicate about each item in turn, keep what it accepts), against the   *)
(* declarative operators the recorded traces are judged by, and the laws   *)
(* that tie these operators together; every small Serie, every answer.     *)
(***************************************************************************)
EXTENDS Selection

CONSTANTS MaxN, MaxIs, Vals

VARIABLES s, ans, i, kept, dropped, asked
vars == <<s, ans, i, kept, dropped, asked>>

Series0 == UNION {{Mk(is, n, d, v) : v \in [1..(is * n) -> Vals], d \in {2, 3}} :
                  is \in 1..MaxIs, n \in 0..MaxN}

Init == /\ s \in Series0
        /\ ans \in [1..s.n -> {0, 1}]
        /\ i = 0 /\ kept = <<>> /\ dropped = <<>> /\ asked = <<>>

Ask == /\ i < s.n
       /\ i' = i + 1
       /\ asked' = Append(asked, <<i + 1, Item(s, i + 1)>>)
       /\ IF ans[i + 1] = 1 THEN kept' = Append(kept, Item(s, i + 1)) /\ UNCHANGED dropped
                            ELSE dropped' = Append(dropped, Item(s, i + 1)) /\ UNCHANGED kept
       /\ UNCHANGED <<s, ans>>
Next == Ask
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == i = s.n
\* The machine computes the operators.
Computes == Done =>
    /\ FromItems(s.is, s.dim, kept) = Filter(s, ans)
    /\ FromItems(s.is, s.dim, dropped) = Reject(s, ans)
    /\ Len(asked) = s.n
\* Nothing is lost, duplicated or reordered.
Complementary ==
    LET f == Kept(ans) g == Dropped(ans) IN
    /\ Range1(f) \cap Range1(g) = {}
    /\ Range1(f) \cup Range1(g) = 1..s.n
    /\ Len(f) + Len(g) = s.n
    /\ \A a, b \in 1..Len(f) : a < b => f[a] < f[b]
    /\ WF(Filter(s, ans)) /\ WF(Reject(s, ans))
    /\ Filter(s, [k \in 1..s.n |-> 1]) = s
    /\ Filter(s, ans) = Reject(s, [k \in 1..s.n |-> 1 - ans[k]])
FirstIsFirst ==
    LET p == FirstKept(ans) IN
    IF p = 0 THEN Kept(ans) = <<>> ELSE Kept(ans)[1] = p
\* Filtering twice with the surviving answers is idempotent.
Idempotent == LET t == Filter(s, ans) IN Filter(t, [k \in 1..t.n |-> 1]) = t
Terminates == <>Done
=============================================================================
