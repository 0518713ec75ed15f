----------------------------- MODULE TraceReplay -----------------------------
EXTENDS Replay, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
=============================================================================
