------------------------------ MODULE Trace_C22 ------------------------------
EXTENDS TraceBase, Geometry
VARIABLE l
vars == l
NoSerie(s) == s.is = 0 /\ s.v = <<>>
Accept(e) ==
    CASE e.op = "normals" -> e.res = "ok" /\ IF Mesh(e.p, e.t)
            THEN e.out.is = 3 /\ e.out.n = e.t.n /\ Items(e.out) = Normals(e.p, e.t)
            ELSE NoSerie(e.out)
      [] e.op = "areas" -> e.res = "ok" /\ IF Mesh(e.p, e.t)
            THEN /\ e.out.n = e.t.n /\ Len(e.out.v) = e.t.n /\ (e.t.n > 0 => e.out.is = 1)
                 /\ \A i \in 1..e.t.n : AreaIs(Normal(e.p, Item(e.t, i)), e.kind, e.out.v[i])
            ELSE NoSerie(e.out)
      [] e.op = "insar" -> e.res = "ok" /\ IF e.u.is = 3 /\ Len(e.los) = 3
            THEN e.out.n = e.u.n /\ (e.u.n > 0 => e.out.is = 1) /\ e.out.v = Insar(e.u, e.los)
            ELSE NoSerie(e.out)
      [] e.op = "fringes" -> e.res = "ok" /\ IF e.s.is = 1
            THEN e.out.n = e.s.n /\ (e.s.n > 0 => e.out.is = 1) /\ e.out.v = Fringes(e.s, e.m)
            ELSE NoSerie(e.out)
      [] e.op = "grid" -> IF GridFits(e.dims, e.c, e.d)
            THEN e.res = "ok" /\ e.out.is = 3 /\ e.out.n = Points(e.dims) /\ e.out.v = Grid(e.dims, e.c, e.d)
            ELSE e.res = "inv"
      [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
