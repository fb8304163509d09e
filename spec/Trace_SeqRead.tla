---------------------------- MODULE Trace_SeqRead ----------------------------
EXTENDS SeqRead, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
