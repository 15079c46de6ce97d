------------------------------ MODULE Trace_C05 ------------------------------
EXTENDS Trace_Attr, Eigen

\* One decomposer's own answer r = [o, iv, sq] to (is, name).
RightValue(d, is, name, r) ==
    LET p == Get(fr, POS) t == Get(fr, IND) listed == name \in Lists(d, fr, is) IN
    /\ listed => Valid(r.iv)
    /\ Valid(r.iv) =>
       CASE d.k = "comp" -> \E c \in Components(fr, name) : SameValues(r.iv, c)
         [] d.k = "coord" -> \E c \in Coordinates(d, fr, name) : SameValues(r.iv, c)
         [] d.k = "normals" -> name = d.name /\ SameValues(r.iv, MeshNormals(p, t))
         [] d.k = "area" -> name = d.name /\ SameValues(r.sq, FourAreaSq(p, t)) /\ r.pos
         [] d.k = "valence" -> name = d.name /\ SameValues(r.iv, Valences(p, t))
         [] d.k = "user" -> name = d.name /\ is = d.is /\ SameValues(r.iv, UserValue(d, fr))
         [] OTHER -> TRUE       \* eigen values and vectors: see below

AcceptSerie(e) ==
    LET own == [k \in 1..Len(e.own) |-> e.own[k].o] IN
    /\ Len(own) = Len(ds)
    /\ \A k \in 1..Len(ds) : RightValue(ds[k], e.is, e.name, e.own[k])
    \* and the Manager hands out such a value
    /\ (e.name \notin DOMAIN fr \/ fr[e.name].is # e.is) /\ Right(own, e.is) # {} => \E k \in Right(own, e.is) : e.o = own[k]

\* All the eigen values and vectors of one stored Serie, by their names.
AcceptEigen(e) ==
    LET s == fr[e.name] d == s.dim IN
    /\ Symmetric(s)
    /\ Len(e.vals) = d /\ Len(e.vecs) = d
    /\ \A k \in 1..d : e.vals[k].is = 1 /\ e.vals[k].n = s.n /\ e.vecs[k].is = d /\ e.vecs[k].n = s.n
    /\ \A i \in 1..s.n : Decomposed(d, Item(s, i), [k \in 1..d |-> e.vals[k].v[i]], [k \in 1..d |-> Item(e.vecs[k], i)])

Step(e) == CASE e.op = "names" -> UNCHANGED <<fr, ds, dim>>
             [] e.op = "serie" -> AcceptSerie(e) /\ UNCHANGED <<fr, ds, dim>>
             [] e.op = "eigen" -> AcceptEigen(e) /\ UNCHANGED <<fr, ds, dim>>
             [] OTHER -> History(e)
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
