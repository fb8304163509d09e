---------------------------- MODULE Trace_Tools ----------------------------
EXTENDS Tools, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
