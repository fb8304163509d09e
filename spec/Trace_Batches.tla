---------------------------- MODULE Trace_Batches ----------------------------
EXTENDS Batches, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
