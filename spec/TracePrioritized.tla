---- MODULE TracePrioritized ----
EXTENDS Prioritized, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold WITH Start <- PStart, Apply <- PApply
====
