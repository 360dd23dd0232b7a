------------------------------ MODULE TraceLib ------------------------------
(* Reading and stepping through a recorded trace. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
\* report a rejected event and keep going
Judge(i, ok, expected) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", i, expected>>)
=============================================================================
