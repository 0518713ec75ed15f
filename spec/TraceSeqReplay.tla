---- MODULE TraceSeqReplay ----
EXTENDS SeqReplay, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
====
