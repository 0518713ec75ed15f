---- MODULE TraceMultiEnv ----
EXTENDS MultiEnv, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
