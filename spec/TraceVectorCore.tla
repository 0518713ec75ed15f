---- MODULE TraceVectorCore ----
EXTENDS VectorCore, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
