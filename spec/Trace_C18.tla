------------------------------ MODULE Trace_C18 ------------------------------
EXTENDS TraceBase, Eigen
VARIABLE l
vars == l
Suits(s) == (s.dim = 2 /\ s.is = 3) \/ (s.dim = 3 /\ s.is = 6)
D(s) == s.dim
Cut(q, d) == [k \in 1..d |-> SubSeq(q, (k - 1) * d + 1, k * d)]
Fits(s, out, size) == out.n = s.n /\ Len(out.v) = s.n * size /\ (s.n > 0 => out.is = size)
Accept(e) ==
    LET s == e.in d == D(s) IN
    /\ e.op = "eigen"
    /\ IF ~Suits(s) THEN \A k \in 1..3 : e.res[k] # "ok"
       ELSE /\ \A k \in 1..3 : e.res[k] = "ok"
            /\ Fits(s, e.val, d) /\ Fits(s, e.vec, d * d) /\ Fits(s, e.sval, d) /\ Fits(s, e.svec, d * d)
            /\ \A i \in 1..s.n :
                LET m == Item(s, i) val == Item(e.val, i) vec == Cut(Item(e.vec, i), d)
                    sval == Item(e.sval, i) svec == Cut(Item(e.svec, i), d)
                IN /\ Decomposed(d, m, val, vec)
                   /\ \/ sval = val /\ svec = vec
                      \/ Decomposed(d, m, sval, svec) /\ Agree(d, m, val, vec, sval, svec)
                   /\ Has(e, "alone") => Agree(d, m, val, vec, e.alone[i][1], Cut(e.alone[i][2], d))
                   /\ Has(e, "want") => Near(d, m, val, e.want[i])
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
