------------------------------ MODULE MC_Algebra -----------------------------
(* Elimination by integer row operations as a transition system: adding a     *)
(* multiple of a row to another keeps the determinant, exchanging rows        *)
(* negates it, and the same steps applied to the adjugate keep what           *)
(* InverseOf says; with the algebraic laws as invariants.                     *)
EXTENDS Algebra, IOUtils
CONSTANT Full3
VARIABLES d, m, sign, det0, n
vars == <<d, m, sign, det0, n>>
Vals == IF IOEnv.TIER = "thorough" THEN {-1, 0, 2} ELSE {0, 2, -1}
Row(i) == SubSeq(m, (i - 1) * d + 1, i * d)
Rows(r) == IF d = 2 THEN r[1] \o r[2] ELSE r[1] \o r[2] \o r[3]
Sym == {Unpack(3, p) : p \in [1..6 -> Vals]} \cup (IF Full3 THEN [1..9 -> {0, 1}] ELSE {})
Init == /\ \/ d = 2 /\ m \in [1..4 -> {-1, 0, 1, 3}]
           \/ d = 3 /\ m \in Sym
        /\ sign = 1 /\ det0 = Det(d, m) /\ n = 0
Add(i, j, c) == i # j /\ m' = Rows([q \in 1..d |-> IF q = i THEN [k \in 1..d |-> Row(i)[k] + c * Row(j)[k]] ELSE Row(q)]) /\ UNCHANGED sign
Swap(i, j) == i < j /\ m' = Rows([q \in 1..d |-> IF q = i THEN Row(j) ELSE IF q = j THEN Row(i) ELSE Row(q)]) /\ sign' = -sign
Turn == m' = Transposed(d, m) /\ UNCHANGED sign
Deep == IF d = 2 \/ IOEnv.TIER = "thorough" THEN 2 ELSE 1
Next == n < Deep /\ n' = n + 1 /\ UNCHANGED <<d, det0>> /\ (Turn \/ \E i, j \in 1..d : Swap(i, j) \/ \E c \in {-1, 2} : Add(i, j, c))
Spec == Init /\ [][Next]_vars
DetKept == Det(d, m) = sign * det0
Laws == /\ Transposed(d, Transposed(d, m)) = m
        /\ MatMul(d, m, Identity(d)) = m /\ Det(d, MatMul(d, m, m)) = det0 * det0
        /\ Transposed(d, MatMul(d, m, Transposed(d, m))) = MatMul(d, m, Transposed(d, m))
Adj == d = 3 => /\ MatMul(3, m, Adjugate(m)) = [k \in 1..9 |-> Det(3, m) * Identity(3)[k]]
                /\ MatMul(3, Adjugate(m), m) = [k \in 1..9 |-> Det(3, m) * Identity(3)[k]]
                /\ (Abs(Det(3, m)) = 1 => InverseOf(m, [k \in 1..9 |-> Det(3, m) * Adjugate(m)[k]], 1))
\* Being the inverse excludes any other matrix, and the transposed one unless symmetric.
Only == d = 3 /\ Abs(Det(3, m)) = 1 =>
          LET r == [k \in 1..9 |-> Det(3, m) * Adjugate(m)[k]]
          IN /\ \A k \in 1..9 : ~InverseOf(m, [r EXCEPT ![k] = @ + 1], 1)
             /\ InverseOf(m, Transposed(3, r), 1) => Transposed(3, m) = m
             /\ InverseOf(m, [k \in 1..9 |-> 65536 * r[k]], 65536)
Products == d = 3 => LET a == Row(1) b == Row(2) IN
              /\ DotP(CrossP(a, b), a) = 0 /\ DotP(CrossP(a, b), b) = 0 /\ CrossP(a, b) = [k \in 1..3 |-> -CrossP(b, a)[k]]
              /\ DotP(CrossP(a, b), CrossP(a, b)) + DotP(a, b) * DotP(a, b) = DotP(a, a) * DotP(b, b)
              /\ \E q \in 0..500 : RootOf(DotP(a, a), q, 8) /\ \A w \in 0..500 : RootOf(DotP(a, a), w, 8) => Abs(w - q) <= 1
=============================================================================
