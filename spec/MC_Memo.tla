------------------------------- MODULE MC_Memo -------------------------------
(* Every history of calls, failures and clears over every small input.      *)
EXTENDS Memo
CONSTANTS MaxEvals
VARIABLES evals,    \* every evaluation since the last clear
          n,        \* number of evaluations ever made: the n-th answers n
          last      \* last call: [in, ret] or <<>>
vars == <<cache, evals, n, last>>
Inputs == {Mk(1, 0, 3, <<>>), Mk(2, 0, 3, <<>>), Mk(1, 2, 3, <<1, 2>>), Mk(2, 1, 3, <<1, 2>>), Mk(1, 2, 2, <<1, 2>>)}
Answer(k) == Mk(1, 1, 3, <<k>>)
Init == cache = <<>> /\ evals = <<>> /\ n = 0 /\ last = <<>>
Call(in) == IF Known(in)
            THEN Hit(in, <<>>, cache[in]) /\ last' = <<in, cache[in]>> /\ UNCHANGED <<evals, n>>
            ELSE /\ n < MaxEvals /\ n' = n + 1 /\ \E ok \in BOOLEAN :
                    LET ev == [in |-> in, ok |-> ok, out |-> Answer(n + 1)] IN
                    /\ evals' = Append(evals, ev)
                    /\ IF ok THEN Miss(in, <<ev>>, ev.out) /\ last' = <<in, ev.out>>
                       ELSE Fail(in, <<ev>>) /\ last' = <<>>
Next == (\E in \in Inputs : Call(in)) \/ (Clear /\ evals' = <<>> /\ last' = <<>> /\ UNCHANGED n)
Spec == Init /\ [][Next]_vars
Good(in) == {k \in 1..Len(evals) : evals[k].in = in /\ evals[k].ok}
\* Between two clears: at most one evaluation that answered, none after it,
\* and every answer given is that one's.
Once == \A in \in Inputs : /\ Cardinality(Good(in)) = (IF Known(in) THEN 1 ELSE 0)
                           /\ \A k \in Good(in) : /\ cache[in] = evals[k].out
                                                  /\ \A m \in (k + 1)..Len(evals) : evals[m].in # in
Transparent == last # <<>> => \E k \in Good(last[1]) : evals[k].out = last[2]
=============================================================================
