---- MODULE CliTrace ----
(* Checks a trace of invocations of the parse command against Cli.         *)
EXTENDS Cli, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES at, case
tvars == <<at, case, cvars>>

Complain(e) ==
  LET c == JCli(e) IN
  IF c = {} THEN TRUE ELSE PrintT("COMPLAINT " \o ToJson([line |-> at, case |-> case, what |-> c]))

TInit == CliInit /\ at = 1 /\ case = "-"
TNext ==
  /\ at <= Len(Events)
  /\ at' = at + 1
  /\ LET e == Events[at] IN
     /\ case' = IF e.op = "case" THEN e.id ELSE case
     /\ Complain(e)
     /\ CliStep(e)
TraceSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Events)))
====
