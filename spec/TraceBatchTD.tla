---- MODULE TraceBatchTD ----
EXTENDS BatchTD, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
