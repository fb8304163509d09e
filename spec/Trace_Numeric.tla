---------------------------- MODULE Trace_Numeric ----------------------------
EXTENDS Numeric, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
