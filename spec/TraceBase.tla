----------------------------- MODULE TraceBase ------------------------------
(* Reading recorded traces.  A trace file holds many scenarios; the first    *)
(* event of each has e = "start".  A scenario whose next event is not a step *)
(* of the specification is reported as rejected and skipped, so that one     *)
(* rejection does not hide another.                                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line of the trace
          skip    \* TRUE after a rejection, until the next scenario

tvars == <<l, skip>>

TInit == l = 1 /\ skip = FALSE

Ev == Trace[l]
Reject(why) == PrintT(<<"REJ", l, why>>)
More == l <= Len(Trace)
=============================================================================
