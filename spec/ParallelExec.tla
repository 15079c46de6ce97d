---------------------------- MODULE ParallelExec -----------------------------
(***************************************************************************)
(* How the library runs one call: the caller splits the input, launches one *)
(* job per part, and takes the results in part order; a job that failed     *)
(* makes the caller leave, and leaving waits for every job still running.   *)
(* Every interleaving of the caller and the jobs.                           *)
(***************************************************************************)
EXTENDS Split
CONSTANTS MaxN, MaxCores
VARIABLES in, cores, pc, launched, job, res, taken, out

vars == <<in, cores, pc, launched, job, res, taken, out>>
Inputs == {Mk(is, n, 3, [k \in 1..(is * n) |-> k]) : is \in 1..2, n \in 0..MaxN}
P == PartitionOne(in, Max2(cores, 1))
N == Len(P)
F(part) == FromItems(part.is, part.dim, [i \in 1..part.n |-> Reverse0(Item(part, i))])   \* item-wise
NoJob == [how |-> "none", out |-> Mk(0, 0, 3, <<>>)]

Init == /\ in \in Inputs /\ cores \in 0..MaxCores
        /\ pc = "start" /\ launched = 0 /\ taken = <<>> /\ out = <<>>
        /\ job = [k \in 1..(MaxCores + 1) |-> "none"] /\ res = [k \in 1..(MaxCores + 1) |-> NoJob]

Refuse == pc = "start" /\ cores < 1 /\ pc' = "failed" /\ UNCHANGED <<in, cores, launched, job, res, taken, out>>
Go == pc = "start" /\ cores >= 1 /\ pc' = "launch" /\ UNCHANGED <<in, cores, launched, job, res, taken, out>>
Launch == /\ pc = "launch" /\ launched < N
          /\ launched' = launched + 1 /\ job' = [job EXCEPT ![launched + 1] = "ready"]
          /\ pc' = IF launched + 1 = N THEN "collect" ELSE "launch"
          /\ UNCHANGED <<in, cores, res, taken, out>>
JobStart(k) == job[k] = "ready" /\ job' = [job EXCEPT ![k] = "running"] /\ UNCHANGED <<in, cores, pc, launched, res, taken, out>>
JobEnd(k, how) == /\ job[k] = "running" /\ job' = [job EXCEPT ![k] = "done"]
                  /\ res' = [res EXCEPT ![k] = [how |-> how, out |-> F(P[k])]]
                  /\ UNCHANGED <<in, cores, pc, launched, taken, out>>
Take == /\ pc = "collect" /\ Len(taken) < N
        /\ LET k == Len(taken) + 1 IN
           /\ job[k] = "done"
           /\ IF res[k].how = "ok" \/ (res[k].how = "short" /\ (cores = 1 \/ in.n = 0)) THEN taken' = Append(taken, res[k].out) /\ UNCHANGED pc
              ELSE pc' = "leave" /\ UNCHANGED taken
        /\ UNCHANGED <<in, cores, launched, job, res, out>>
Leave == /\ pc = "leave" /\ \A k \in 1..N : job[k] = "done"
         /\ pc' = "failed" /\ UNCHANGED <<in, cores, launched, job, res, taken, out>>
Join == /\ pc = "collect" /\ Len(taken) = N /\ out' = <<Concat(taken)>> /\ pc' = "done"
        /\ UNCHANGED <<in, cores, launched, job, res, taken>>
Next == Refuse \/ Go \/ Launch \/ Take \/ Leave \/ Join
        \/ \E k \in 1..(MaxCores + 1) : JobStart(k) \/ \E how \in {"ok", "threw", "short"} : JobEnd(k, how)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------ what it owes
Over == pc \in {"done", "failed"}
NothingLeftRunning == Over => \A k \in 1..Len(job) : job[k] \in {"none", "done"}
Equal == (pc = "done" /\ cores > 1 /\ in.n > 0) => /\ \A k \in 1..N : res[k].how = "ok"
                        /\ out = <<Concat([k \in 1..N |-> F(P[k])])>>
                        /\ out = <<F(in)>>          \* as if it had been called once
FailsWhenItMust == pc = "failed" => cores < 1 \/ \E k \in 1..N : res[k].how \in {"threw", "short"}
Terminates == <>Over

\* The same execution, as its caller and the function see it.
Seen == INSTANCE Parallel WITH
    call <- IF Over \/ pc = "start" THEN <<>> ELSE [in |-> in, cores |-> cores],
    started <- IF Over THEN {} ELSE {k \in 1..Len(job) : job[k] \in {"running", "done"}},
    running <- IF Over THEN {} ELSE {k \in 1..Len(job) : job[k] = "running"},
    result <- IF Over THEN <<>> ELSE [k \in {x \in 1..Len(job) : job[x] = "done"} |-> res[k]]
SeenNext == \/ Seen!Begin([in |-> in, cores |-> cores])
            \/ \E k \in 1..Len(job) : Seen!Start(k) \/ Seen!End(k, res'[k])
            \/ Seen!ReturnFailed
            \/ (out' # <<>> /\ Seen!ReturnOk(out'[1]))
Refines == Seen!NoCall /\ [][SeenNext]_<<Seen!pvars>>
=============================================================================
