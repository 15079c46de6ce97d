------------------------------ MODULE MC_Arith -------------------------------
(* An elementwise operation done one component at a time, in any order, from  *)
(* the operands' own components, ends in what the operators say; and the      *)
(* operators obey the laws of arithmetic.                                     *)
EXTENDS Arith
CONSTANTS MaxN
Vals == IF MaxN = 2 THEN {-2, 0, 1, 3} ELSE {0, 1}
VARIABLES op, a, b, c, acc, left
vars == <<op, a, b, c, acc, left>>
Ser(is, n) == {Mk(is, n, 2, v) : v \in [1..(is * n) -> Vals]}
Shapes == {<<is, n>> \in (1..2) \X (0..MaxN) : is * n <= 3}
Expected == CASE op = "add" -> Adds(<<a, b>>) [] op = "sub" -> Subs(<<a, b>>) [] op = "mult" -> Product(a, b)
              [] op = "bc" -> Product(a, c) [] OTHER -> Weighted(<<a, b>>, <<2, -1>>)
One(k) == CASE op = "add" -> a.v[k] + b.v[k] [] op = "sub" -> a.v[k] - b.v[k] [] op = "mult" -> a.v[k] * b.v[k]
              [] op = "bc" -> a.v[k] * c.v[ItemOf(a, k)] [] OTHER -> 2 * a.v[k] - b.v[k]
Init == /\ op \in {"add", "sub", "mult", "bc", "wsum"}
        /\ \E sh \in Shapes : a \in Ser(sh[1], sh[2]) /\ b \in Ser(sh[1], sh[2]) /\ c \in Ser(1, sh[2])
        /\ acc = [a EXCEPT !.v = [k \in 1..Len(a.v) |-> 0]] /\ left = 1..Len(a.v)
Next == \E k \in left : acc' = [acc EXCEPT !.v[k] = One(k)] /\ left' = left \ {k} /\ UNCHANGED <<op, a, b, c>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(left = {})
Right == left = {} => Gives(Expected, acc)
Shape == WF(acc) /\ acc.is = a.is /\ acc.n = a.n /\ acc.dim = a.dim
Laws == /\ Adds(<<a, b>>).v = Adds(<<b, a>>).v /\ Subs(<<Adds(<<a, b>>), b>>) = a
        /\ Subs(<<a, b>>) = Adds(<<a, Negated(b)>>) /\ Subs(<<a, b, a>>).v = Negated(b).v
        /\ Weighted(<<a, b>>, <<1, 1>>) = Adds(<<a, b>>) /\ Weighted(<<a>>, <<3>>) = ScaleBy(a, 3)
        /\ Product(Adds(<<a, b>>), c) = Adds(<<Product(a, c), Product(b, c)>>)
        /\ ScaleBy(a, -1) = Negated(a) /\ ScaleEach(a, [j \in 1..a.is |-> 2]) = ScaleBy(a, 2)
        /\ Product(a, b).v = Product(b, a).v
Divides == \A v \in Vals : \A w \in Vals \ {0} : Quotient(v * w, w, 1, v) /\ ~Quotient(v * w, w, 1, v + 1)
             /\ \E q \in -4096..4096 : Quotient(v, w, 1024, q) /\ \A q2 \in -4096..4096 : Quotient(v, w, 1024, q2) => Abs(q - q2) <= 1
ASSUME Divides
=============================================================================
