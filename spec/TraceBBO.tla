---- MODULE TraceBBO ----
EXTENDS BBO, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
