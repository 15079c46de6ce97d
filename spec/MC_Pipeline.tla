---------------------------- MODULE MC_Pipeline ------------------------------
(* Evaluating a program the way the library does it: a pipe calls its first  *)
(* member, then pipes the result through the rest; a composition calls its   *)
(* last member, then the others. The machine keeps what remains to be done   *)
(* on a stack. Every program of three levels.                                *)
EXTENDS Pipeline
CONSTANT MaxArity
VARIABLES prog, x0, stack, x, calls
vars == <<prog, x0, stack, x, calls>>
Op(k) == [t |-> "op", k |-> k]
Leaves == {Op(0), Op(3), Op(8)}
Lists(S) == UNION {[1..n -> S] : n \in 1..MaxArity}
Level1 == Leaves \cup {[t |-> w, l |-> q] : w \in {"pipe", "comp"}, q \in Lists(Leaves)}
Small == Leaves \cup {[t |-> w, l |-> q] : w \in {"pipe", "comp"}, q \in [1..2 -> {Op(0), Op(8)}]}
Progs == Level1 \cup {[t |-> w, l |-> q] : w \in {"pipe", "comp"}, q \in Lists(Small)}
X == <<Mk(1, 3, 3, <<1, 5, 2>>)>>
Init == prog \in Progs /\ x0 = X /\ stack = <<prog>> /\ x = X /\ calls = <<>>
Top == stack[1]
\* A pipe: its first member, then the pipe of the others on that result.
Unfold == /\ stack # <<>> /\ Top.t # "op"
          /\ LET l == Top.l n == Len(l) rest == Tail(stack) IN
             stack' = IF Top.t = "pipe"
                      THEN <<l[1]>> \o (IF n = 1 THEN <<>> ELSE <<[t |-> "pipe", l |-> Tail(l)]>>) \o rest
                      ELSE <<l[n]>> \o (IF n = 1 THEN <<>> ELSE <<[t |-> "comp", l |-> SubSeq(l, 1, n - 1)]>>) \o rest
          /\ UNCHANGED <<prog, x0, x, calls>>
Apply == /\ stack # <<>> /\ Top.t = "op"
         /\ calls' = Append(calls, [k |-> Top.k, x |-> x]) /\ x' = Do(Top.k, x) /\ stack' = Tail(stack)
         /\ UNCHANGED <<prog, x0>>
Next == Unfold \/ Apply
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Planned == FollowsPlan(Flat(prog), x0, calls)
Result == stack = <<>> => x = Run(Flat(prog), x0) /\ Len(calls) = Len(Flat(prog))
Ends == <>(stack = <<>>)
=============================================================================
