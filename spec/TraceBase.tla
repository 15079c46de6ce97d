----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* The recorded execution of the real code: one JSON object per call, read *)
(* from the file named by the environment variable TRACE.                  *)
(***************************************************************************)
EXTENDS Series, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
Has(e, f) == f \in DOMAIN e
\* All recorded events were explained: the longest path covers the trace.
Explained == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
