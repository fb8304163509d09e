---------------------------- MODULE Trace_VecClass ----------------------------
EXTENDS VecClass, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
