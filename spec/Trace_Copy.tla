---------------------------- MODULE Trace_Copy ----------------------------
EXTENDS Copy, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
