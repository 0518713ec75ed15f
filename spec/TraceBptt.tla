---- MODULE TraceBptt ----
EXTENDS Bptt, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
