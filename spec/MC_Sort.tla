------------------------------- MODULE MC_Sort -------------------------------
(* Any algorithm that only exchanges whole items, as long as a neighbouring   *)
(* pair is out of order, ends in a result the specification of sort accepts;  *)
(* a total order has exactly one.                                             *)
EXTENDS Sort
CONSTANTS MaxN, Vals
VARIABLES s, cur, by
vars == <<s, cur, by>>
Perms(n) == {p \in [1..n -> 1..n] : {p[q] : q \in 1..n} = 1..n}
Id(x) == x
Lt(a, b) == CASE by = "lex" -> LexLt(a, b, Id) [] by = "first" -> a[1] < b[1] [] by = "last" -> b[Len(b)] < a[Len(a)] [] OTHER -> FALSE
Init == /\ s \in UNION {{Mk(is, n, 2, v) : v \in [1..(is * n) -> Vals]} : is \in 1..2, n \in 0..MaxN}
        /\ cur = s /\ by \in {"lex", "first", "last", "none"}
Swap(i) == /\ i < cur.n /\ Lt(Item(cur, i + 1), Item(cur, i))
           /\ cur' = Gather(cur, [q \in 1..cur.n |-> IF q = i THEN i + 1 ELSE IF q = i + 1 THEN i ELSE q])
           /\ UNCHANGED <<s, by>>
Next == \E i \in 1..MaxN : Swap(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == Ordered(cur, Lt)
Sorts == Permutes(s, cur) /\ (Done => SortsTo(s, cur, Lt))
Unique == Done /\ by = "lex" => cur = FromItems(s.is, s.dim, Canonical(s))
NeverLost == \A i \in 1..s.n : Cardinality({q \in 1..s.n : Item(s, q) = Item(s, i)}) = Cardinality({q \in 1..cur.n : Item(cur, q) = Item(s, i)})
\* A witness exists exactly when the items are the same.
Witness == Permutes(s, cur) <=> \E p \in Perms(s.n) : PermutedBy(s, cur, p)
NoWitness == s.n > 0 /\ cur.v[1] # s.v[1] => LET w == [cur EXCEPT !.v[1] = 99] IN ~Permutes(s, w) /\ \A p \in Perms(s.n) : ~PermutedBy(s, w, p)
Ends == <>[]Done
=============================================================================
