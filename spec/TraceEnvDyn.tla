---- MODULE TraceEnvDyn ----
EXTENDS EnvDyn, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
