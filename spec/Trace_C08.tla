------------------------------ MODULE Trace_C08 ------------------------------
EXTENDS TraceBase, Traversal

VARIABLE l
vars == l

Maps == {"vmap", "map", "mmap", "make_map", "apply", "make_apply"}
Eachs == {"forEach", "mforEach", "make_forEach"}
Reduces == {"reduce", "mreduce", "make_reduce"}

All(e) == CallsInOrder(e.in, e.ci, e.cv) /\ Len(e.ci) = e.in[1].n
Failed(e) == e.res # "ok"

\* The Serie made of the results.
Mapped(e) ==
    LET o == e.out[1] IN
    IF e.in[1].n = 0
    THEN o.n = 0 /\ o.v = <<>> /\ o.dim = e.in[1].dim /\ (e.rk = "n" => o.is = 1)
    ELSE o = MapResult(e.in, e.ret)

AcceptMap(e) ==
    IF ~Counts(e.in) THEN Failed(e) /\ e.ci = <<>>
    ELSE IF ~Uniform(e.ret) THEN Failed(e) /\ CallsInOrder(e.in, e.ci, e.cv)
    ELSE /\ e.res = "ok" /\ All(e) /\ Len(e.ret) = Len(e.ci)
         /\ Mapped(e)

AcceptEach(e) ==
    IF ~Counts(e.in) THEN Failed(e) /\ e.ci = <<>>
    ELSE IF Len(e.in) = 1 /\ ((e.kind = "s" /\ e.in[1].is # 1) \/ (e.kind = "a" /\ e.in[1].is = 1))
         THEN Failed(e) /\ e.ci = <<>>
    ELSE e.res = "ok" /\ All(e)

AcceptCheck(e) ==
    /\ e.res = "ok" /\ All(e)
    /\ e.shape = <<1, e.in[1].n>>
    /\ e.flags = e.ans

AcceptChoose(e) ==
    /\ ChoicesInOrder(e.in, e.ans, e.asked, e.who, e.ci, e.cv)
    /\ \A c \in 1..Len(e.own) : e.own[c] = 1                  \* the functions see the whole Serie
    /\ IF ~Uniform(e.ret) THEN Failed(e)
       ELSE e.res = "ok" /\ Len(e.asked) = e.in[1].n /\ All(e) /\ Len(e.ret) = e.in[1].n /\ Mapped(e)

AcceptReduce(e) ==
    /\ e.res = "ok" /\ All(e)
    /\ Chained(e.init, e.acc, e.ret)
    /\ e.val = Folded(e.init, e.ret)
    /\ e.shape = <<Len(e.val), 1>>

Accept(e) ==
    CASE e.op \in Maps -> AcceptMap(e)
      [] e.op \in Eachs -> AcceptEach(e)
      [] e.op = "smap" -> e.res = "ok" /\ e.seen = e.in /\ e.out = e.ret
      [] e.op = "check" -> AcceptCheck(e)
      [] e.op \in {"if", "make_if"} -> AcceptChoose(e)
      [] e.op \in Reduces -> AcceptReduce(e)
      [] OTHER -> FALSE

Init == l = 1
Next == l <= Len(Trace) /\ Accept(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
