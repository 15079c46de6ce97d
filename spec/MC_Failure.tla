----------------------------- MODULE MC_Failure ------------------------------
(* A machine that goes over items with a function of two stages (ask, then    *)
(* for some items answer), every call of which may fail; a caller that calls   *)
(* it again and again. Mode: "sound", or one of the ways to get it wrong:      *)
(* Swallow the failure, go on and fail Late, answer with Another failure,      *)
(* leave Traces behind for the next call.                                      *)
EXTENDS Failure, IOUtils
CONSTANTS N, Mode
Runs == 3
VARIABLES ans, k, i, stage, log, ended, left, run, pending
vars == <<ans, k, i, stage, log, ended, left, run, pending>>
Failing == [kind |-> 1, id |-> run]
\* The calls when nothing fails: ask about item i (1), and if it is kept, answer (2).
RECURSIVE Calls(_, _)
Calls(a, j) == IF j > Len(a) THEN <<>> ELSE <<<<1, j>>>> \o (IF a[j] = 1 THEN <<<<2, j>>>> ELSE <<>>) \o Calls(a, j + 1)
Init == /\ ans \in UNION {[1..n -> 0..1] : n \in 0..N} /\ k \in 1..(2 * N + 1)
        /\ i = 1 /\ stage = 1 /\ log = <<>> /\ ended = <<>> /\ left = 0 /\ run = 1 /\ pending = FALSE
Stopped == ended # <<>>
Call == /\ ~Stopped /\ i <= Len(ans)
        /\ log' = Append(log, <<stage, i>>)
        /\ LET hit == Len(log) + 1 = k
               on == IF stage = 1 /\ ans[i] = 1 THEN <<i, 2>> ELSE <<i + 1, 1>>
           IN IF hit /\ Mode # "Swallow" /\ Mode # "Late"
              THEN /\ ended' = (IF Mode = "Another" THEN [kind |-> 0, id |-> run] ELSE Failing)
                   /\ left' = (IF Mode = "Traces" THEN i ELSE 0) /\ UNCHANGED <<i, stage, pending>>
              ELSE /\ i' = on[1] /\ stage' = on[2] /\ pending' = (pending \/ (hit /\ Mode = "Late")) /\ UNCHANGED <<ended, left>>
        /\ UNCHANGED <<ans, k, run>>
Return == /\ ~Stopped /\ i > Len(ans) /\ ended' = (IF pending THEN Failing ELSE NoFailure) /\ UNCHANGED <<ans, k, i, stage, log, left, run, pending>>
\* the next call begins where what was left behind says
Again == /\ Stopped /\ run < Runs /\ run' = run + 1 /\ k' \in 1..(2 * N + 1)
         /\ i' = 1 + left /\ left' = 0 /\ stage' = 1 /\ log' = <<>> /\ ended' = <<>> /\ pending' = FALSE /\ UNCHANGED ans
Next == Call \/ Return \/ Again
Spec == Init /\ [][Next]_vars
All == Calls(ans, 1)
StopsThere == Stopped => log = Until(All, k)
Reported == Stopped => ended = Ending(All, k, Failing)
OnTheWay == \E m \in 0..Len(All) : log = SubSeq(All, 1, m)
=============================================================================
