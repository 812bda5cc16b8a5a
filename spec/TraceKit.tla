------------------------------ MODULE TraceKit ------------------------------
(* Trace validation.  TRACE names an ndjson file, one run (execution history *)
(* of the real library) per line: [id |-> string, ev |-> sequence of events]. *)
(* A trace specification takes every run through its actions, event by        *)
(* event.  Verdicts are total: an event the specification does not allow is   *)
(* reported with the names of the clauses it breaks, the specification        *)
(* re-synchronises on the logged state, and the rest of the run is judged.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, IA

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES run, l
EvOf(r, i) == Runs[r].ev[i]
Ev == Runs[run].ev[l]
More == l <= Len(Runs[run].ev)

Report(cl) ==
    IF cl = {} THEN TRUE
    ELSE PrintT("VIOL|" \o ToString(run) \o "|" \o ToString(l) \o "|" \o ToString(cl))

\* Fields that may be absent.
Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
SeqToSet(s) == {s[i] : i \in DOMAIN s}
=============================================================================
