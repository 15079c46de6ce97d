------------------------------ MODULE Trace_C11 ------------------------------
EXTENDS TraceBase, Sort
VARIABLE l
vars == l
\* Minus zero and zero have different identities but compare equal.
Key(e, x) == IF x = e.z[2] THEN e.z[1] ELSE x
Lt(e, a, b) ==
    LET K(x) == Key(e, x) IN
    CASE e.cmp \in {"default", "less", "lex"} -> LexLt(a, b, K)
      [] e.cmp \in {"revlex", "greater"} -> LexLt(b, a, K)
      [] e.cmp = "asc" -> K(a[e.c]) < K(b[e.c])
      [] e.cmp = "desc" -> K(b[e.c]) < K(a[e.c])
      [] e.cmp = "sign" -> K(a[e.c]) < e.z[1] /\ ~(K(b[e.c]) < e.z[1])
      [] OTHER -> FALSE
Accept(e) == e.op = "sort" /\ e.res = "ok" /\ SortsBy(e.in, e.out, e.from, LAMBDA a, b : Lt(e, a, b))
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
