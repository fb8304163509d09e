---------------------------- MODULE Trace_Ahc ----------------------------
EXTENDS Ahc, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
