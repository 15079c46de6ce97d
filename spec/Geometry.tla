------------------------------- MODULE Geometry ------------------------------
(***************************************************************************)
(* C22: triangles, line-of-sight displacements, fringes and regular grids,   *)
(* on exact integers.                                                        *)
(***************************************************************************)
EXTENDS Series
Minus(a, b) == [k \in 1..3 |-> a[k] - b[k]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
DotOf(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Node(p, t, k) == Item(p, t[k] + 1)             \* nodes are counted from 0
Normal(p, t) == Cross(Minus(Node(p, t, 2), Node(p, t, 1)), Minus(Node(p, t, 3), Node(p, t, 1)))
Normals(p, t) == [i \in 1..t.n |-> Normal(p, Item(t, i))]
Mesh(p, t) == p.is = 3 /\ t.is = 3
\* An area is recorded as twice ("lin", where the normal is along an axis) or four times its square.
AreaIs(n, kind, q) == IF kind = "lin" THEN Cardinality({k \in 1..3 : n[k] # 0}) <= 1 /\ q = Abs(n[1] + n[2] + n[3])
                      ELSE q = DotOf(n, n)
Insar(u, los) == [i \in 1..u.n |-> DotOf(Item(u, i), los)]
Residue(v, m) == v % m
Fringes(s, m) == [i \in 1..s.n |-> Residue(s.v[i], m)]

------------------------------------------------------------------------------
(* A grid of dims points (1 to 3 directions), from corner c, over extent d.   *)
Points(dims) == FoldLeft(LAMBDA a, b : a * b, 1, dims)
Along(dims, a) == IF a <= Len(dims) THEN dims[a] ELSE 1
Steps(dims, a) == Max2(Along(dims, a) - 1, 1)
\* the place of point p (from 1) along each direction, the first running fastest
Place(dims, p) == LET n1 == Along(dims, 1) n2 == Along(dims, 2) IN
    <<(p - 1) % n1, ((p - 1) \div n1) % n2, (p - 1) \div (n1 * n2)>>
\* coordinate a of point p, times the number of steps there
Coordinate(dims, c, d, p, a) == c[a] * Steps(dims, a) + Place(dims, p)[a] * d[a]
Grid(dims, c, d) == [k \in 1..(3 * Points(dims)) |-> Coordinate(dims, c, d, ((k - 1) \div 3) + 1, ((k - 1) % 3) + 1)]
GridFits(dims, c, d) == Len(dims) \in 1..3 /\ Len(c) = 3 /\ Len(d) = 3
=============================================================================
