---- MODULE TraceOnPolicy ----
EXTENDS OnPolicy, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
