------------------------------ MODULE Pipeline -------------------------------
(***************************************************************************)
(* C15: what a pipeline or a composition is: a list of operations, applied  *)
(* one after the other.  A program is an operation [t |-> "op", k |-> ..],   *)
(* a pipe [t |-> "pipe", l |-> programs] or a composition                    *)
(* [t |-> "comp", l |-> programs].  A value is a list of Series.            *)
(***************************************************************************)
EXTENDS Series

\* Grouping does not matter: the operations in the order they are applied.
RECURSIVE Flat(_)
Flat(p) ==
    CASE p.t = "op" -> <<p.k>>
      [] p.t = "pipe" -> FoldLeft(LAMBDA a, q : a \o Flat(q), <<>>, p.l)
      [] p.t = "comp" -> FoldLeft(LAMBDA a, q : Flat(q) \o a, <<>>, p.l)

A == <<2, 3, 5, 1, 7, 11, 13, 96>>
B == <<1, 2, 0, 5, 3, 10, 1, 4>>
Each(vs, F(_)) == [i \in 1..Len(vs) |-> F(vs[i])]
Affine(k, s) == [s EXCEPT !.v = [i \in 1..Len(s.v) |-> (A[k + 1] * s.v[i] + B[k + 1]) % 97]]
DropLast(s) == IF s.n = 0 THEN s ELSE Slice(s, 1, s.n - 1)
Turned(s) == FromItems(s.is, s.dim, Reverse0(Items(s)))
\* The operations of the driver; the 15th always fails.
Do(k, vs) ==
    CASE k \in 0..7 -> Each(vs, LAMBDA s : Affine(k, s))
      [] k = 8 -> Each(vs, DropLast)
      [] k = 9 -> Each(vs, Turned)
      [] k = 10 -> Reverse0(vs)
      [] k = 11 -> <<vs[1], Affine(0, vs[1])>>
      [] k = 12 -> <<vs[1]>>
      [] k = 13 -> <<Mk(1, 1, 3, <<vs[1].n>>)>>
Fails(k) == k = 15

RECURSIVE Run(_, _)
Run(ops, x) == IF ops = <<>> THEN x ELSE Run(Tail(ops), Do(Head(ops), x))

\* The calls made so far are a prefix of the plan, each on the previous result.
FollowsPlan(ops, x, calls) ==
    /\ Len(calls) <= Len(ops)
    /\ \A i \in 1..Len(calls) : calls[i].k = ops[i] /\ calls[i].x = (IF i = 1 THEN x ELSE Do(ops[i - 1], calls[i - 1].x))
=============================================================================
