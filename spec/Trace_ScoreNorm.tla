---------------------------- MODULE Trace_ScoreNorm ----------------------------
EXTENDS ScoreNorm, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
