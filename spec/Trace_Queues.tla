---------------------------- MODULE Trace_Queues ----------------------------
EXTENDS Queues, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
