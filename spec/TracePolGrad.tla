---- MODULE TracePolGrad ----
EXTENDS PolGrad, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
