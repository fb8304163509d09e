---------------------------- MODULE Trace_Options ----------------------------
EXTENDS Options, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
