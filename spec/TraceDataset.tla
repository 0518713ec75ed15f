----------------------------- MODULE TraceDataset -----------------------------
EXTENDS Dataset, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
=============================================================================
