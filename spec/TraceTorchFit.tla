---- MODULE TraceTorchFit ----
EXTENDS TorchFit, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
