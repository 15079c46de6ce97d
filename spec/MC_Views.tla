------------------------------- MODULE MC_Views ------------------------------
(* Products gathered one term at a time, in any order, end in the products;   *)
(* and the laws of the algebra. Views that keep their own values, or refer to *)
(* those they were made from ("Refers": then Own fails once these change).    *)
EXTENDS Views, IOUtils
CONSTANT Refers
Big == IOEnv.TIER = "thorough"
Vals == IF Big THEN {-1, 0, 2} ELSE {-1, 2}
VARIABLES src, view, a, b, acc, left
vars == <<src, view, a, b, acc, left>>
Terms == {<<i, j, q>> : i, j, q \in 1..2}
Init == /\ a \in [1..4 -> Vals] /\ b \in [1..4 -> Vals] /\ src = a /\ view = (IF Refers THEN <<>> ELSE a)
        /\ acc = [k \in 1..4 |-> 0] /\ left = Terms
Seen == IF Refers THEN src ELSE view
GatherTerm == \E t \in left : /\ left' = left \ {t}
                          /\ acc' = [acc EXCEPT ![2 * (t[1] - 1) + t[2]] = @ + Seen[2 * (t[1] - 1) + t[3]] * b[2 * (t[3] - 1) + t[2]]]
                          /\ UNCHANGED <<src, view, a, b>>
\* the array the view was made from goes away or is written over
Overwrite == src # <<7, 7, 7, 7>> /\ src' = <<7, 7, 7, 7>> /\ UNCHANGED <<view, a, b, acc, left>>
Next == GatherTerm \/ Overwrite
Spec == Init /\ [][Next]_vars
Own == Seen = a
A == [m |-> 2, v |-> a]
B == [m |-> 2, v |-> b]
Product == left = {} => acc = MM(A, B).v
Laws == left = Terms =>
    /\ T(T(A)) = A /\ T(MM(A, B)) = MM(T(B), T(A)) /\ TraceOf(MM(A, B)) = TraceOf(MM(B, A)) /\ TraceOf(T(A)) = TraceOf(A)
    /\ Symmetric(A) <=> T(A) = A /\ Symmetric(MM(A, T(A)))
    /\ Symmetric(A) => SymMatrix(Stored(A)) = A
    /\ MV(MM(A, B), <<3, -1>>) = MV(A, MV(B, <<3, -1>>))
    /\ MV(A, Sum2(<<1, 2>>, <<5, -3>>)) = Sum2(MV(A, <<1, 2>>), MV(A, <<5, -3>>))
    /\ DotP(a, b) = DotP(b, a) /\ DotP(Sum2(a, b), b) = DotP(a, b) + DotP(b, b) /\ Sub2(Sum2(a, b), b) = a
    /\ SymMatrix(SubSeq(a, 1, 3)).v = <<a[1], a[2], a[2], a[3]>>
Packs == \A m \in 1..4 : LET p == [k \in 1..((m * (m + 1)) \div 2) |-> k] IN Symmetric(SymMatrix(p)) /\ UpperPack(SymMatrix(p)) = p /\ SymMatrix(p).m = m
ASSUME Packs
=============================================================================
