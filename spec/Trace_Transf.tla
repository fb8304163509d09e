---------------------------- MODULE Trace_Transf ----------------------------
EXTENDS Transf, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
