------------------------------ MODULE Parallel -------------------------------
(***************************************************************************)
(* C12: what a caller (and the function it passes) can observe of one      *)
(* parallel execution after another: the function starting and ending on a  *)
(* part, and the call coming back.                                          *)
(***************************************************************************)
EXTENDS Split
VARIABLES call,     \* the call in progress: [in, cores], or <<>>
          started,  \* parts (by number) the function was called on
          running,  \* ... and has not come back from
          result    \* part number -> [how: "ok"/"threw"/"short", out]
pvars == <<call, started, running, result>>

PartList(c) == PartitionOne(c.in, Max2(c.cores, 1))
\* With one core, or nothing to split, the call is simply the function's own.
Direct == call.cores = 1 \/ call.in.n = 0
Clean(p) == \A k \in DOMAIN p : p[k].how = "ok" \/ (Direct /\ p[k].how = "short")
Bad(p) == \E k \in DOMAIN p : p[k].how # "ok"

NoCall == call = <<>> /\ started = {} /\ running = {} /\ result = <<>>

Begin(c) ==
    /\ call = <<>>
    /\ call' = c /\ started' = {} /\ running' = {} /\ result' = <<>>

\* The function is called on part k, never twice.
Start(k) ==
    /\ call # <<>> /\ call.cores >= 1
    /\ k \in 1..Len(PartList(call)) /\ k \notin started
    /\ started' = started \cup {k} /\ running' = running \cup {k}
    /\ UNCHANGED <<call, result>>

\* It returns r there (a Serie of as many items), or fails.
End(k, r) ==
    /\ k \in running
    /\ running' = running \ {k}
    /\ result' = (k :> r) @@ result
    /\ UNCHANGED <<call, started>>

\* The call comes back only once nothing runs any more.
Joined == Concat([k \in DOMAIN result |-> result[k].out])
ReturnOk(out) ==
    /\ call # <<>> /\ call.cores >= 1 /\ running = {}
    /\ started = 1..Len(PartList(call)) /\ DOMAIN result = started
    /\ Clean(result)
    /\ out = Joined
    /\ call' = <<>> /\ started' = {} /\ running' = {} /\ result' = <<>>
ReturnFailed ==
    /\ call # <<>> /\ running = {}
    /\ \/ call.cores < 1 /\ started = {}
       \/ Bad(result)
    /\ call' = <<>> /\ started' = {} /\ running' = {} /\ result' = <<>>
=============================================================================
