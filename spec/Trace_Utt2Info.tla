---------------------------- MODULE Trace_Utt2Info ----------------------------
EXTENDS Utt2Info, Json, IOUtils
VARIABLES b, l, st, bad
Bs == JsonDeserialize(IOEnv.TRACE)
INSTANCE TraceLib
=============================================================================
