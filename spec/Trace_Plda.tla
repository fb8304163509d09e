---------------------------- MODULE Trace_Plda ----------------------------
EXTENDS Plda, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
