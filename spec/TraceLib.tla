------------------------------ MODULE TraceLib ------------------------------
(* Common to every trace specification.  TRACE_FILE holds a JSON array of traces; a trace is an array of event records.
   Each trace specification has variables tr (which trace) and l (next event), starts in every trace at once and consumes
   one event per step.  With fully logged events a step is determined, a trace that is no behaviour shows up as a deadlock
   before its end; with silent steps the furthest position reached per trace is kept in a TLC register.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Has(r, f) == f \in DOMAIN r
Range0(s) == {s[i] : i \in DOMAIN s}
=============================================================================
