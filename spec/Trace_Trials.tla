---------------------------- MODULE Trace_Trials ----------------------------
EXTENDS Trials, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
