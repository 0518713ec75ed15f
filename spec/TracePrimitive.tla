---- MODULE TracePrimitive ----
EXTENDS Primitive, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
