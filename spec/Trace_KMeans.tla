---------------------------- MODULE Trace_KMeans ----------------------------
EXTENDS KMeans, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
