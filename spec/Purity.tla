-------------------------------- MODULE Purity --------------------------------
(***************************************************************************)
(* C14: the library as a function of values. The only state is what has been *)
(* answered before: a call leaves its arguments as they were and answers as   *)
(* it did the first time.                                                     *)
(***************************************************************************)
EXTENDS Series
Called(memory, case, before, answer) ==
    IF case \in DOMAIN memory THEN memory[case] = [args |-> before, answer |-> answer] ELSE TRUE
Remember(memory, case, before, answer) == (case :> [args |-> before, answer |-> answer]) @@ memory
=============================================================================
