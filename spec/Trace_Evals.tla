---------------------------- MODULE Trace_Evals ----------------------------
EXTENDS Evals, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
