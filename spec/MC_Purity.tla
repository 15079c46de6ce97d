------------------------------ MODULE MC_Purity ------------------------------
(* A library that works on storage: handles point to cells, a call reads its   *)
(* argument's cell and answers with a new handle on a fresh cell, the caller    *)
(* writes into any cell he can reach. It refines the library of values: every   *)
(* handle shows what a world of values would, and a call repeated with an equal  *)
(* argument gives an equal answer. (A cell shared between an answer and an       *)
(* argument, an answer remembered by address, or an argument worked on in place  *)
(* breaks one of the invariants: Shared, ByAddress, InPlace switch them on.)     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS H, Mode
Vals == 0..2
Fs == {"inc", "id"}
Ap(f, v) == IF f = "inc" THEN (v + 1) % 3 ELSE v
VARIABLES cellOf, cell, shadow, memo, answered, n
vars == <<cellOf, cell, shadow, memo, answered, n>>
Handles == 1..H
Init == /\ cellOf = <<1, 2>> /\ cell \in [1..2 -> Vals] /\ shadow = cell /\ memo = <<>> /\ answered = {} /\ n = 0
\* The call f(argument): Mode "sound" is the code as it should be.
Call(f, h) ==
    LET c == cellOf[h] v == cell[c]
        stale == Mode = "ByAddress" /\ <<f, c>> \in DOMAIN memo
        r == IF stale THEN memo[<<f, c>>] ELSE Ap(f, v)
        fresh == IF Mode = "Shared" /\ f = "id" THEN c ELSE Len(cell) + 1
    IN /\ Len(cellOf) < H
       /\ cell' = IF fresh = c THEN cell ELSE IF Mode = "InPlace" THEN Append([cell EXCEPT ![c] = r], r) ELSE Append(cell, r)
       /\ cellOf' = Append(cellOf, fresh)
       /\ shadow' = Append(shadow, Ap(f, shadow[h]))
       /\ memo' = IF stale THEN memo ELSE (<<f, c>> :> r) @@ memo
       /\ answered' = answered \cup {<<f, v, r>>}
Write(h, v) == cell' = [cell EXCEPT ![cellOf[h]] = v] /\ shadow' = [shadow EXCEPT ![h] = v] /\ UNCHANGED <<cellOf, memo, answered>>
Next == n < 5 /\ n' = n + 1 /\ \E h \in 1..Len(cellOf) : (\E f \in Fs : Call(f, h)) \/ (\E v \in Vals : Write(h, v))
Spec == Init /\ [][Next]_vars
Refines == \A h \in 1..Len(cellOf) : cell[cellOf[h]] = shadow[h]
SameAnswer == \A a, b \in answered : a[1] = b[1] /\ a[2] = b[2] => a[3] = b[3]
NotShared == \A h, g \in 1..Len(cellOf) : h # g => cellOf[h] # cellOf[g]
=============================================================================
