---------------------------- MODULE Trace_ScpList ----------------------------
EXTENDS ScpList, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
