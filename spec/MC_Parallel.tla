----------------------------- MODULE MC_Parallel -----------------------------
EXTENDS ParallelExec
=============================================================================
