---------------------------- MODULE Trace_Segments ----------------------------
EXTENDS Segments, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
