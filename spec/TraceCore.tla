------------------------------- MODULE TraceCore -------------------------------
(* Validation of traces of the real run loop against module Core.               *)
EXTENDS Core, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
INSTANCE TraceFold
=============================================================================
