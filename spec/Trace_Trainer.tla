---------------------------- MODULE Trace_Trainer ----------------------------
EXTENDS Trainer, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
