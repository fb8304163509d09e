---------------------------- MODULE Trace_Audio ----------------------------
EXTENDS Audio, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
