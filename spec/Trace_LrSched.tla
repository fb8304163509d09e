---------------------------- MODULE Trace_LrSched ----------------------------
EXTENDS LrSched, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
