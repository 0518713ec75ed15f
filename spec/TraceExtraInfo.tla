----------------------------- MODULE TraceExtraInfo -----------------------------
EXTENDS ExtraInfo, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
=============================================================================
