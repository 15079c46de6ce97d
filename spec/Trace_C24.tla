------------------------------ MODULE Trace_C24 ------------------------------
EXTENDS TraceBase, Views
VARIABLES l, V, M
vars == <<l, V, M>>
Ok(e) == e.res = "ok"
\* What a command does to the Vectors and Matrices; each is only touched when the sizes fit.
SameLen(v, e) == Len(v[e.a]) = Len(v[e.b])
InPlace(v, f, a, x) == [v EXCEPT ![a] = CASE f = "add" -> Sum2(@, x) [] f = "sub" -> Sub2(@, x) [] OTHER -> Mul2(@, x)]
NextV(e) ==
    CASE e.op = "vec" -> [V EXCEPT ![e.a] = e.x]
      [] e.op = "copy" -> [V EXCEPT ![e.a] = V[e.b]]
      [] e.op \in {"add", "sub", "mul"} -> IF SameLen(V, e) THEN InPlace(V, e.op, e.a, V[e.b]) ELSE V
      [] e.op = "scale" -> [V EXCEPT ![e.a] = Times(@, e.k)]
      [] e.op = "chain" -> IF SameLen(V, e) THEN LET v1 == InPlace(V, "add", e.a, V[e.b])
                                                     v2 == [v1 EXCEPT ![e.a] = Times(@, e.k)]
                                                     v3 == InPlace(v2, "sub", e.a, v2[e.b]) IN v3 ELSE V
      [] e.op = "mv" -> IF M[e.b].m = Len(V[e.c]) THEN [V EXCEPT ![e.a] = MV(M[e.b], V[e.c])] ELSE V
      [] e.op = "marr" -> [V EXCEPT ![e.a] = Stored(M[e.b])]
      [] OTHER -> V
NextM(e) ==
    CASE e.op = "mat" -> [M EXCEPT ![e.a] = IF e.k = 1 THEN SymMatrix(e.x) ELSE FullMatrix(e.x)]
      [] e.op = "mcopy" -> [M EXCEPT ![e.a] = M[e.b]]
      [] e.op = "tr" -> [M EXCEPT ![e.a] = T(M[e.b])]
      [] e.op = "mm" -> IF M[e.b].m = M[e.c].m THEN [M EXCEPT ![e.a] = MM(M[e.b], M[e.c])] ELSE M
      [] OTHER -> M
\* What it answers.
Answered(e) ==
    CASE e.op \in {"vec", "copy", "scale", "mat", "mcopy", "tr", "marr"} -> Ok(e)
      [] e.op \in {"add", "sub", "mul", "chain"} -> IF SameLen(V, e) THEN Ok(e) /\ e.self = TRUE ELSE e.res = "inv"
      [] e.op = "mv" -> IF M[e.b].m = Len(V[e.c]) THEN Ok(e) ELSE e.res = "inv"
      [] e.op = "mm" -> IF M[e.b].m = M[e.c].m THEN Ok(e) ELSE e.res = "inv"
      [] e.op = "dot" -> IF SameLen(V, e) THEN Ok(e) /\ e.out = DotP(V[e.a], V[e.b]) ELSE e.res = "inv"
      [] e.op = "vq" -> Ok(e) /\ LET v == V[e.a] IN e.n2 = DotP(v, v) /\ e.len = Len(v) /\ e.at = v /\ e.br = v
      [] e.op = "unit" -> Ok(e) /\ e.self = TRUE /\ LET v == V[e.a] IN
             IF e.L > 0 THEN e.L * e.L = DotP(v, v) /\ e.out = v
             ELSE /\ Len(e.out) = Len(v) /\ Abs(DotP(e.out, e.out) - 4096 * 4096) <= 4096 * (Len(v) + 2)
                  /\ DotP(e.out, v) > 0 /\ \A j, k \in 1..Len(v) : 2 * Abs(e.out[j] * v[k] - e.out[k] * v[j]) <= Abs(v[j]) + Abs(v[k]) + 1
      [] e.op = "mq" -> Ok(e) /\ LET a == M[e.a] IN
             /\ e.len = a.m * a.m /\ e.tr = TraceOf(a) /\ e.sym = Symmetric(a) /\ e.arr = Stored(a)
             /\ e.idx = [k \in 1..(a.m * a.m) |-> k - 1]
      [] e.op = "temp" -> Ok(e) /\ LET a == FullMatrix(e.x) b == IF e.k = 1 THEN SymMatrix(e.y) ELSE FullMatrix(e.y) IN
             e.out = Sum2(MV(MM(T(a), b), e.z), e.z) /\ e.tr = TraceOf(MM(b, a))
      [] OTHER -> FALSE
Init == l = 1 /\ V = Trace[1].V /\ M = Trace[1].M
\* After every command, all Vectors and Matrices are as specified.
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Trace[l].op = "begin" THEN V' = Trace[l].V /\ M' = Trace[l].M
           ELSE /\ Answered(Trace[l]) = TRUE
                /\ V' = NextV(Trace[l]) /\ M' = NextM(Trace[l])
                /\ (Trace[l].V = V') = TRUE /\ (Trace[l].M = M') = TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
