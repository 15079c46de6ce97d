----------------------------- MODULE Attributes ------------------------------
(***************************************************************************)
(* C04, C05: the attribute Manager. A name is the sequence of its character *)
(* codes. A frame is a function from names to Series. A decomposer is a     *)
(* record [k |-> kind, ...]:                                                *)
(*   comp, coord (names), eval, evec, normals / area / valence (name),      *)
(*   user (is, name, src: its function gives the Serie stored under src     *)
(*   with every item reversed, when that has item size is).                 *)
(***************************************************************************)
EXTENDS Series

None == Mk(0, 0, 3, <<>>)
POS == <<112, 111, 115, 105, 116, 105, 111, 110, 115>>      \* "positions"
IND == <<105, 110, 100, 105, 99, 101, 115>>                 \* "indices"
Geometry == {POS, IND}
Get(fr, name) == IF name \in DOMAIN fr THEN fr[name] ELSE None

Letters(w) == [k \in 1..Len(w) |-> 119 + w[k]]      \* 1, 2, 3 -> x, y, z
Names(ws) == [k \in 1..Len(ws) |-> Letters(ws[k])]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Digit(n) == <<48 + n>>

\* How the components of an item are called, in order.
SuffixesOf(s) ==
    CASE s.is <= 1 -> <<>>
      [] s.dim = 2 /\ s.is = 2 -> Names(<<<<1>>, <<2>>>>)
      [] s.dim = 2 /\ s.is = 3 -> Names(<<<<1, 1>>, <<1, 2>>, <<2, 2>>>>)
      [] s.dim = 2 /\ s.is = 4 -> Names(<<<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>>>)
      [] s.dim = 3 /\ s.is = 3 -> Names(<<<<1>>, <<2>>, <<3>>>>)
      [] s.dim = 3 /\ s.is = 6 -> Names(<<<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>, <<2, 3>>, <<3, 3>>>>)
      [] s.dim = 3 /\ s.is = 9 -> Names(<<<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<3, 2>>, <<3, 3>>>>)
      [] OTHER -> [k \in 1..s.is |-> Dec(k - 1)]

Symmetric(s) == (s.dim = 2 /\ s.is = 3) \/ (s.dim = 3 /\ s.is = 6)
Mesh(fr) == Get(fr, POS).is = 3 /\ Get(fr, IND).is = 3
Triangles(fr) == Get(fr, POS).is > 0 /\ Get(fr, IND).is = 3      \* positions of any size
UserValue(d, fr) == LET s == Get(fr, d.src) IN
    IF s.is = d.is THEN FromItems(s.is, s.dim, [i \in 1..s.n |-> Reverse0(Item(s, i))]) ELSE None

\* ------------------------------------------------- what a decomposer lists
Lists(d, fr, is) ==
    CASE d.k = "comp" -> IF is # 1 THEN {}
                         ELSE UNION {{n \o SuffixesOf(fr[n])[k] : k \in 1..Len(SuffixesOf(fr[n]))} : n \in DOMAIN fr \ Geometry}
      [] d.k = "coord" -> IF is # 1 THEN {}
                          ELSE {d.names[k] : k \in 1..Min2(Len(d.names), Get(fr, POS).is)}
      [] d.k = "eval" -> IF is # 1 THEN {}
                         ELSE UNION {{n \o Digit(k) : k \in 1..fr[n].dim} : n \in {m \in DOMAIN fr \ Geometry : Symmetric(fr[m])}}
      [] d.k = "evec" -> UNION {{n \o Digit(k) : k \in 1..fr[n].dim} : n \in {m \in DOMAIN fr \ Geometry : Symmetric(fr[m]) /\ fr[m].dim = is}}
      [] d.k = "normals" -> IF is = 3 /\ Mesh(fr) THEN {d.name} ELSE {}
      [] d.k = "area" -> IF is = 1 /\ Mesh(fr) THEN {d.name} ELSE {}
      [] d.k = "valence" -> IF is = 1 /\ Triangles(fr) THEN {d.name} ELSE {}
      [] d.k = "user" -> IF is = d.is /\ Valid(UserValue(d, fr)) THEN {d.name} ELSE {}

\* What it may answer to, listed or not (a name derived from positions or
\* indices, or a mesh attribute asked for with another item size).
Answers(d, fr, is, name) ==
    CASE d.k = "comp" -> is <= 1 /\ \E n \in DOMAIN fr : \E k \in 1..Len(SuffixesOf(fr[n])) : name = n \o SuffixesOf(fr[n])[k]
      [] d.k = "eval" -> is = 1 /\ \E n \in DOMAIN fr : Symmetric(fr[n]) /\ \E k \in 1..fr[n].dim : name = n \o Digit(k)
      [] d.k = "evec" -> \E n \in DOMAIN fr : Symmetric(fr[n]) /\ fr[n].dim = is /\ \E k \in 1..fr[n].dim : name = n \o Digit(k)
      [] d.k \in {"normals", "area"} -> name = d.name /\ Mesh(fr)
      [] d.k = "valence" -> name = d.name /\ Triangles(fr)
      [] OTHER -> name \in Lists(d, fr, is)

\* ------------------------------------------------------------ the Manager
StoredNames(fr, is, dim) == {n \in DOMAIN fr \ Geometry : fr[n].is = is /\ fr[n].dim = dim}
Listed(fr, ds, is, dim) == StoredNames(fr, is, dim) \cup UNION {Lists(ds[k], fr, is) : k \in 1..Len(ds)}
\* (With nothing stored there is nothing to derive a name from.)
ListedAtLeast(fr, ds, is, dim) == IF DOMAIN fr = {} THEN {} ELSE Listed(fr, ds, is, dim)

RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Before(Tail(a), Tail(b)))
StrictlySorted(q) == \A k \in 2..Len(q) : Before(q[k - 1], q[k])

\* Who answers: the stored Serie, else the first decomposer with an answer of
\* the requested item size (own: the decomposers' own answers).
Right(own, is) == {k \in 1..Len(own) : own[k].is = is /\ is > 0}
First(S) == CHOOSE k \in S : \A m \in S : k <= m

\* ---------------------------------------------- what derived values are
Column(s, k) == Mk(1, s.n, s.dim, [i \in 1..s.n |-> At(s, i, k)])
Components(fr, name) == UNION {{Column(fr[n], k) : k \in {j \in 1..Len(SuffixesOf(fr[n])) : name = n \o SuffixesOf(fr[n])[j]}} : n \in DOMAIN fr}
Coordinates(d, fr, name) == LET p == Get(fr, POS) IN
    {Column(p, k) : k \in {j \in 1..Min2(Len(d.names), p.is) : d.names[j] = name}}
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Minus(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
Dot(a, b) == SumSeq([k \in 1..Len(a) |-> a[k] * b[k]])
TriangleNormal(p, t) == Cross(Minus(Item(p, t[2] + 1), Item(p, t[1] + 1)), Minus(Item(p, t[3] + 1), Item(p, t[1] + 1)))
MeshNormals(p, t) == FromItems(3, 3, [i \in 1..t.n |-> TriangleNormal(p, Item(t, i))])
FourAreaSq(p, t) == Mk(1, t.n, 3, [i \in 1..t.n |-> LET n == TriangleNormal(p, Item(t, i)) IN Dot(n, n)])
Valences(p, t) == Mk(1, p.n, 3, [v \in 1..p.n |-> Cardinality({k \in 1..Len(t.v) : t.v[k] = v - 1})])
SameValues(a, b) == a.is = b.is /\ a.n = b.n /\ a.v = b.v
=============================================================================
