---------------------------- MODULE Trace_Frames ----------------------------
EXTENDS Frames, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
