---- MODULE Trace ----
(***************************************************************************)
(* Checks a trace recorded from the real code: one event per call.  Each   *)
(* event is taken as a step of Session; complaints are printed and the     *)
(* trace is read on, so that one run reports everything.                   *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES at, case
tvars == <<at, case, svars>>

Complain(e) ==
  LET c == Complaints(Prop, e) IN
  IF c = {} THEN TRUE ELSE PrintT("COMPLAINT " \o ToJson([line |-> at, case |-> case, what |-> c]))

TInit == SInit /\ at = 1 /\ case = "-"
TNext ==
  /\ at <= Len(Events)
  /\ at' = at + 1
  /\ LET e == Events[at] IN
     /\ case' = IF e.op = "case" THEN e.id ELSE case
     /\ Complain(e)
     /\ StepOf(e)
TraceSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Events)))
====
