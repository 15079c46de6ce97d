----------------------------- MODULE MC_Geometry -----------------------------
(* Grid points laid one after the other, the first direction fastest, end in  *)
(* the grid; and the laws of normals, areas, fringes.                         *)
EXTENDS Geometry, IOUtils
Big == IOEnv.TIER = "thorough"
N == IF Big THEN 4 ELSE 3
VARIABLES dims, at, pts
vars == <<dims, at, pts>>
C == <<-2, 1, 4>>
D == <<6, -12, 24>>
Init == dims \in UNION {[1..k -> 0..N] : k \in 1..3} /\ at = <<0, 0, 0>> /\ pts = <<>>
Full(a) == at[a] + 1 >= Along(dims, a)
Point == [a \in 1..3 |-> C[a] * Steps(dims, a) + at[a] * D[a]]
Next == /\ Len(pts) < Points(dims) /\ pts' = Append(pts, Point) /\ UNCHANGED dims
        /\ at' = IF ~Full(1) THEN [at EXCEPT ![1] = @ + 1]
                 ELSE IF ~Full(2) THEN [at EXCEPT ![1] = 0, ![2] = @ + 1]
                 ELSE [at EXCEPT ![1] = 0, ![2] = 0, ![3] = @ + 1]
Spec == Init /\ [][Next]_vars
Laid == \A k \in 1..Len(pts) : \A a \in 1..3 : pts[k][a] = Grid(dims, C, D)[3 * (k - 1) + a]
Corners == (Len(pts) = Points(dims) /\ pts # <<>>) =>
    /\ pts[1] = [a \in 1..3 |-> C[a] * Steps(dims, a)]
    /\ pts[Len(pts)] = [a \in 1..3 |-> (IF Along(dims, a) = 1 THEN C[a] ELSE C[a] + D[a]) * Steps(dims, a)]
    /\ Cardinality(Range1(pts)) = Len(pts)
\* Triangles over few nodes.
Vs == IF Big THEN {<<a, b, c>> : a \in {0, 2}, b \in {-1, 1}, c \in {0, 3}} ELSE {<<0, 0, 0>>, <<2, -1, 0>>, <<0, 1, 3>>, <<1, 1, 1>>, <<4, -2, 0>>}
Tri == \A a, b, c \in Vs : LET p == FromItems(3, 3, <<a, b, c>>)
                              n == Normal(p, <<0, 1, 2>>) IN
    /\ DotOf(n, Minus(b, a)) = 0 /\ DotOf(n, Minus(c, a)) = 0
    /\ Normal(p, <<1, 2, 0>>) = n /\ Normal(p, <<0, 2, 1>>) = Minus(<<0, 0, 0>>, n)
    /\ DotOf(n, n) = DotOf(Minus(b, a), Minus(b, a)) * DotOf(Minus(c, a), Minus(c, a)) - DotOf(Minus(b, a), Minus(c, a)) * DotOf(Minus(b, a), Minus(c, a))
    /\ \A q \in 0..400 : AreaIs(n, "sq", q) => q = DotOf(n, n)
Rest == \A v \in -20..20 : \A m \in 1..7 : LET r == Residue(v, m) IN r \in 0..(m - 1) /\ (v - r) % m = 0 /\ Residue(v + m, m) = r
ASSUME Tri /\ Rest
=============================================================================
