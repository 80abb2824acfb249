---- MODULE FetchTrace ----
(* Checks a trace of cache builds against Fetch.              *)
EXTENDS Fetch, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES at, case
tvars == <<at, case, fvars>>

Complain(e) ==
  LET c == JFetch(e) IN
  IF c = {} THEN TRUE ELSE PrintT("COMPLAINT " \o ToJson([line |-> at, case |-> case, what |-> c]))

TInit == FetchInit /\ at = 1 /\ case = "-"
TNext ==
  /\ at <= Len(Events)
  /\ at' = at + 1
  /\ LET e == Events[at] IN
     /\ case' = IF e.op = "case" THEN e.id ELSE case
     /\ Complain(e)
     /\ FetchStep(e)
TraceSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Events)))
====
