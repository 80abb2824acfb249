---- MODULE Cli ----
(***************************************************************************)
(* The parse command (C25): a directory of named things, an argument list, *)
(* and what one invocation prints, says and returns.                       *)
(*                                                                         *)
(* The command takes its arguments one after another.  The state of an     *)
(* invocation is how far it has come, what it has printed, and whether it  *)
(* has failed and over which argument.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES things     \* name -> [kind, doc]; kind is good, bad (not a tachograph file) or none (cannot be read)
cvars == <<things>>
Empty == [k \in {} |-> 0]
CliInit == things = Empty

\* the arguments that name files: after "--" everything does, before it what
\* looks like a flag does not
Dash(a) == a.flag
RECURSIVE Named(_, _)
Named(args, all) ==
  IF args = <<>> THEN <<>>
  ELSE IF ~all /\ args[1].name = "--" THEN Named(Tail(args), TRUE)
  ELSE (IF ~all /\ Dash(args[1]) THEN <<>> ELSE <<args[1].name>>) \o Named(Tail(args), all)
RECURSIVE Flags(_)
Flags(args) ==
  IF args = <<>> \/ args[1].name = "--" THEN FALSE ELSE Dash(args[1]) \/ Flags(Tail(args))

ThingOf(n) == IF n \in DOMAIN things THEN things[n] ELSE [kind |-> "none", doc |-> ""]
\* one invocation: its steps
Begin(args) ==
  [todo |-> Named(args, FALSE), printed |-> <<>>, blame |-> "",
   ended |-> IF Flags(args) \/ Named(args, FALSE) = <<>> THEN "failed" ELSE "no"]
Step(i) ==
  IF i.todo = <<>> THEN [i EXCEPT !.ended = "done"]
  ELSE LET t == ThingOf(i.todo[1]) IN
       IF t.kind = "good" THEN [i EXCEPT !.todo = Tail(i.todo), !.printed = Append(i.printed, t.doc)]
       ELSE [i EXCEPT !.ended = "failed", !.blame = i.todo[1]]
RECURSIVE Finish(_)
Finish(i) == IF i.ended # "no" THEN i ELSE Finish(Step(i))

\* a complaint for every way in which an invocation was not that
JCli(e) ==
  IF e.op = "lib" /\ e.out \notin {"ok", "err"} THEN {"the library did not answer"}
  ELSE IF e.op # "run" THEN {}
  ELSE IF e.out # "ok" THEN {"the command did not end"}
  ELSE LET i == Finish(Begin(e.args)) full == e.to = "full" /\ i.printed # <<>> IN
    (IF full THEN IF e.exit = 0 THEN {"documents that could not be written, and success"} ELSE {}
     ELSE (IF e.docs = i.printed THEN {}
           ELSE IF Len(e.docs) < Len(i.printed) THEN {"a document is missing"}
           ELSE IF Len(e.docs) > Len(i.printed) THEN {"a document too many"}
           ELSE {"a document is not what the library returns for that file"})
          \cup (IF i.ended = "failed" /\ e.exit = 0 THEN {"a failure reported as success"} ELSE {})
          \cup (IF i.ended = "done" /\ e.exit # 0 THEN {"a success reported as failure"} ELSE {})
          \cup (IF i.ended = "failed" /\ ~e.err THEN {"a failure without an error message"} ELSE {})
          \cup (IF i.blame # "" /\ i.blame \notin {e.said[k] : k \in 1..Len(e.said)} THEN {"the error does not name the file"} ELSE {}))
    \cup (IF e.changed # <<>> THEN {"an input was changed"} ELSE {})

CliStep(e) ==
  CASE e.op = "case" -> things' = Empty
    [] e.op \in {"dir", "loop", "through"} -> things' = (e.n :> [kind |-> "none", doc |-> ""]) @@ things
    [] e.op = "link" -> things' = (e.n :> ThingOf(e.at)) @@ things
    [] e.op = "lib" -> things' = (e.n :> [kind |-> IF e.out = "ok" THEN "good" ELSE "bad", doc |-> e.doc]) @@ things
    [] OTHER -> UNCHANGED cvars
====
