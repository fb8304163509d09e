---------------------------- MODULE Trace_Archive ----------------------------
EXTENDS Archive, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
