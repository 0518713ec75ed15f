---- MODULE TraceDQN ----
EXTENDS DQN, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
