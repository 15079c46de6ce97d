--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Printing behaviours of a specification so that they can be replayed     *)
(* into the real code: a line  BEH <json of a sequence of records>.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Emit(behaviour) == PrintT("BEH " \o ToJson(behaviour))
Depth == atoi(IOEnv.GEN_DEPTH)
Thorough == IOEnv.TIER = "thorough"
=============================================================================
