---- MODULE TraceApprox ----
EXTENDS Approx, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
