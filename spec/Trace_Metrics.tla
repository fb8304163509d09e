---------------------------- MODULE Trace_Metrics ----------------------------
EXTENDS Metrics, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
