---------------------------- MODULE Trace_Classif ----------------------------
EXTENDS Classif, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
