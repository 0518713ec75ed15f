---- MODULE TraceDeepAC ----
EXTENDS DeepAC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
