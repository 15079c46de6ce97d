------------------------------ MODULE MC_Eigen -------------------------------
(* Turning a diagonal matrix and its axes together keeps them an eigen        *)
(* decomposition, which the fixed-point judgement accepts; it rejects values  *)
(* out of order, exchanged, or off, and vectors exchanged, turned or scaled.  *)
EXTENDS Eigen, Rotated
VARIABLES d, vals, m, q, turns
vars == <<d, vals, m, q, turns>>
Scale == 25 ^ turns
Init == /\ \/ d = 2 /\ vals \in {<<7, 3>>, <<2, 2>>, <<0, -5>>, <<40, 1>>}
           \/ d = 3 /\ vals \in {<<7, 3, 1>>, <<2, 2, -2>>, <<0, 0, 0>>, <<5, 0, -5>>, <<20, 2, 1>>}
        /\ m = Diag(d, vals) /\ q = Id(d) /\ turns = 0
Next == /\ turns < (IF d = 2 THEN 1 ELSE 2) /\ turns' = turns + 1 /\ UNCHANGED <<d, vals>>
        /\ \E i, j \in 1..d, c \in {<<3, 4>>, <<4, -3>>, <<-3, 4>>, <<5, 0>>} :
             i < j /\ LET r == Turn(d, i, j, c[1], c[2]) IN m' = Turned(d, r, m) /\ q' = Mul(d, r, q)
Spec == Init /\ [][Next]_vars
Packed1 == Pack(d, m)
V(k) == 1000 * Scale * vals[k]
Vec(k) == [i \in 1..d |-> (q[i][k] * 10000) \div (5 ^ turns)]
Values == [k \in 1..d |-> V(k)]
Vectors == [k \in 1..d |-> Vec(k)]
Small == Size1(d, Packed1) < 20000
Accepts == Small => Decomposed(d, Packed1, Values, Vectors) /\ Agree(d, Packed1, Values, Vectors, Values, [k \in 1..d |-> [i \in 1..d |-> -Vec(k)[i]]])
             /\ Near(d, Packed1, Values, [k \in 1..d |-> Scale * vals[k]])
Exch(f, a, b) == [k \in 1..d |-> IF k = a THEN f[b] ELSE IF k = b THEN f[a] ELSE f[k]]
Far(a, b) == Abs(vals[a] - vals[b]) * Scale > Size1(d, Packed1) \div 8
Rejects == Small => \A a, b \in 1..d : a < b /\ Far(a, b) =>
             /\ ~Decomposed(d, Packed1, Exch(Values, a, b), Vectors)
             /\ ~Decomposed(d, Packed1, Values, Exch(Vectors, a, b))
             /\ ~Decomposed(d, Packed1, Exch(Values, a, b), Exch(Vectors, a, b))
             /\ ~Decomposed(d, Packed1, Values, [Vectors EXCEPT ![a] = Vectors[b]])
Lengths == Small => ~Decomposed(d, Packed1, Values, [Vectors EXCEPT ![1] = [i \in 1..d |-> 2 * @[i]]])
Positive == Small => \A k \in 1..d : ~Decomposed(d, Packed1, [Values EXCEPT ![k] = @ + 100 * (d + 2)], Vectors)
=============================================================================
