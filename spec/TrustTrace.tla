---- MODULE TrustTrace ----
(* Checks a trace of calls about certificates against Trust.               *)
EXTENDS Trust

Events == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES at, case
tvars == <<at, case, tvars_>>

Complain(e) ==
  LET c == IF e.out = "skip" THEN {} ELSE JTrust(Prop, e) IN
  IF c = {} THEN TRUE ELSE PrintT("COMPLAINT " \o ToJson([line |-> at, case |-> case, what |-> c]))

TInit == TrustInit /\ at = 1 /\ case = "-"
TNext ==
  /\ at <= Len(Events)
  /\ at' = at + 1
  /\ LET e == Events[at] IN
     /\ case' = IF e.op = "case" THEN e.id ELSE case
     /\ Complain(e)
     /\ TrustStep(e)
TraceSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Events)))
====
