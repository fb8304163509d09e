---------------------------- MODULE Trace_Em ----------------------------
EXTENDS Em, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
