----------------------------- MODULE MC_Overlap ------------------------------
(* Threads that call an operation on shared arguments; before each step the    *)
(* function it was given may call the operation itself. A call goes over its    *)
(* argument item by item: it takes the item into scratch space, then adds what  *)
(* is there. Mode "sound": the scratch belongs to the call. Otherwise it belongs *)
(* to all (Static), to the thread (ThreadLocal), or the call changes its         *)
(* argument while it works and restores it afterwards (InPlace).                *)
EXTENDS Overlap, IOUtils
CONSTANTS Threads, Mode
Big == IOEnv.TIER = "thorough"
Values == <<(<<1, 2>>), (<<3, 1>>)>>
Answer(c) == Values[c][1] * 10 + Values[c][2]
MaxDepth == IF Big THEN 3 ELSE 2
MaxCalls == IF Big THEN 3 ELSE 2
VARIABLES open, frames, arg, static, local, calls, wrong
vars == <<open, frames, arg, static, local, calls, wrong>>
T == 1..Threads
Init == /\ open = [t \in T |-> <<>>] /\ frames = [t \in T |-> <<>>] /\ arg = Values /\ static = 0 /\ local = [t \in T |-> 0]
        /\ calls = [t \in T |-> 0] /\ wrong = FALSE
Frame == [i |-> 1, taken |-> FALSE, own |-> 0, sum |-> 0]
Top(t) == frames[t][Len(frames[t])]
SetTop(t, f) == frames' = [frames EXCEPT ![t][Len(frames[t])] = f]
Begin(t) == \E c \in 1..2 :
    /\ Len(open[t]) < MaxDepth /\ calls[t] < MaxCalls /\ calls' = [calls EXCEPT ![t] = @ + 1]
    /\ open' = Begins(open, t, c) /\ frames' = [frames EXCEPT ![t] = Append(@, Frame)] /\ UNCHANGED <<arg, static, local, wrong>>
C(t) == Last(open[t])
Take(t) == /\ open[t] # <<>> /\ ~Top(t).taken /\ Top(t).i <= 2
           /\ LET v == arg[C(t)][Top(t).i] IN
              /\ SetTop(t, [Top(t) EXCEPT !.taken = TRUE, !.own = v])
              /\ static' = v /\ local' = [local EXCEPT ![t] = v]
              /\ arg' = IF Mode = "InPlace" THEN [arg EXCEPT ![C(t)][Top(t).i] = 0] ELSE arg
           /\ UNCHANGED <<open, calls, wrong>>
Add(t) == /\ open[t] # <<>> /\ Top(t).taken
          /\ LET v == IF Mode = "Static" THEN static ELSE IF Mode = "ThreadLocal" THEN local[t] ELSE Top(t).own IN
             /\ SetTop(t, [Top(t) EXCEPT !.taken = FALSE, !.i = @ + 1, !.sum = @ * 10 + v])
             /\ arg' = IF Mode = "InPlace" THEN [arg EXCEPT ![C(t)][Top(t).i] = v] ELSE arg
          /\ UNCHANGED <<open, static, local, calls, wrong>>
End(t) == /\ open[t] # <<>> /\ Top(t).i = 3
          /\ CanEnd(open, t, C(t)) /\ wrong' = (wrong \/ Top(t).sum # Answer(C(t)))
          /\ open' = Ends(open, t) /\ frames' = [frames EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<arg, static, local, calls>>
Next == \E t \in T : Begin(t) \/ Take(t) \/ Add(t) \/ End(t)
Spec == Init /\ [][Next]_vars
AsAlone == ~wrong
Untouched == arg = Values
=============================================================================
