---- MODULE TraceFiniteEnv ----
EXTENDS FiniteEnv, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
