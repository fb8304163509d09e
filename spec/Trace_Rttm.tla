---------------------------- MODULE Trace_Rttm ----------------------------
EXTENDS Rttm, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
