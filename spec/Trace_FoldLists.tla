---------------------------- MODULE Trace_FoldLists ----------------------------
EXTENDS FoldLists, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
