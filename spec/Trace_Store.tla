---------------------------- MODULE Trace_Store ----------------------------
EXTENDS Store, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
