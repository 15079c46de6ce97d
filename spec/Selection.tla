----------------------------- MODULE Selection ------------------------------
(***************************************************************************)
(* C06, C07: selecting items from one or several Series.  A predicate is   *)
(* an arbitrary answer (0/1) per position.                                 *)
(***************************************************************************)
EXTENDS Series

Kept(ans) == Positions(Len(ans), LAMBDA i : ans[i] = 1)
Dropped(ans) == Positions(Len(ans), LAMBDA i : ans[i] = 0)

Filter(s, ans) == Gather(s, Kept(ans))
Reject(s, ans) == Gather(s, Dropped(ans))
Partition(s, ans) == <<Filter(s, ans), Reject(s, ans)>>

\* Position (1-based) of the first accepted item, 0 if there is none.
FirstKept(ans) == IF \E i \in 1..Len(ans) : ans[i] = 1
                  THEN CHOOSE i \in 1..Len(ans) : ans[i] = 1 /\ \A j \in 1..(i - 1) : ans[j] = 0
                  ELSE 0

FilterAll(ss, ans) == MapSeq(ss, LAMBDA s : Filter(s, ans))
RejectAll(ss, ans) == MapSeq(ss, LAMBDA s : Reject(s, ans))
SameCounts(ss) == \A k \in 1..Len(ss) : ss[k].n = ss[1].n
=============================================================================
