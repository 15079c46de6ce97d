------------------------------ MODULE Trace_C17 ------------------------------
EXTENDS TraceBase, Algebra
VARIABLE l
vars == l
Ok(e) == e.res = "ok"
Accept(e) ==
    LET s == e.in[1] IN
    CASE e.op = "dot" ->
           IF SameShape(s, e.in[2]) THEN Ok(e) /\ PerItem(s.n, 1, e.out, LAMBDA i : <<DotP(Item(s, i), Item(e.in[2], i))>>)
           ELSE ~Ok(e)
      [] e.op = "dotv" ->
           IF Len(e.x) = s.is THEN Ok(e) /\ PerItem(s.n, 1, e.out, LAMBDA i : <<DotP(Item(s, i), e.x)>>)
           ELSE Ok(e) /\ IsInvalid(e.out)
      [] e.op = "cross" ->
           IF s.is = 3 /\ e.in[2].is = 3 /\ s.n = e.in[2].n
           THEN Ok(e) /\ PerItem(s.n, 3, e.out, LAMBDA i : CrossP(Item(s, i), Item(e.in[2], i)))
           ELSE ~Ok(e)
      [] e.op = "norm2" ->
           IF Valid(s) THEN Ok(e) /\ PerItem(s.n, 1, e.out, LAMBDA i : <<DotP(Item(s, i), Item(s, i))>>) ELSE Ok(e) /\ IsInvalid(e.out)
      [] e.op = "norm" ->
           IF Valid(s) THEN /\ Ok(e) /\ e.out.n = s.n /\ Len(e.out.v) = s.n /\ (s.n > 0 => e.out.is = 1)
                            /\ \A i \in 1..s.n : RootOf(DotP(Item(s, i), Item(s, i)), e.out.v[i], e.f)
           ELSE Ok(e) /\ IsInvalid(e.out)
      [] e.op = "transpose" ->
           IF s.is \in {4, 9} THEN Ok(e) /\ PerItem(s.n, s.is, e.out, LAMBDA i : Transposed(IF s.is = 4 THEN 2 ELSE 3, Item(s, i)))
           ELSE ~Ok(e)
      [] e.op = "det" ->
           IF IsMatrix(s) THEN Ok(e) /\ PerItem(s.n, 1, e.out, LAMBDA i : <<Det(s.dim, Mat(s, i))>>)
           ELSE ~Ok(e) \/ (s.n = 0 /\ Valid(s) /\ e.out.n = 0)
      [] e.op = "inv" ->
           IF ~CanInvert(s) THEN Ok(e) /\ IsInvalid(e.out)
           ELSE IF \E i \in 1..s.n : Abs(Det(3, Mat(s, i))) <= e.thr THEN ~Ok(e)
           ELSE /\ Ok(e) /\ e.out.n = s.n /\ Len(e.out.v) = Len(s.v) /\ (s.n > 0 => e.out.is = s.is)
                /\ \A i \in 1..s.n : InverseOf(Mat(s, i), Full(3, Item(e.out, i)), e.f)
      [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
