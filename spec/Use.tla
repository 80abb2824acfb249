---- MODULE Use ----
(***************************************************************************)
(* What a caller does with parsed files besides writing them: looking at   *)
(* them, storing them, scribbling over bytes it owns, and editing them.    *)
(***************************************************************************)
EXTENDS Session

View(f, e) == files' = [files EXCEPT ![f].seen = <<e.view>>] /\ UNCHANGED <<bufs, learned>>
\* a stored copy stands for the same contents
Store(f, g, e) ==
  /\ files' = IF e.out = "ok" THEN (g :> files[f]) @@ files ELSE Without(files, g)
  /\ UNCHANGED <<bufs, learned>>
\* the caller changed the file beyond what the specification follows
Lost(m) == [m EXCEPT !.kind = "none", !.seen = <<>>, !.wrote = <<>>, !.edited = TRUE]
Scribble(f) == files' = [files EXCEPT ![f] = Lost(@)] /\ UNCHANGED <<bufs, learned>>
Clone(f, g) == files' = (g :> files[f]) @@ files /\ UNCHANGED <<bufs, learned>>

(***************************************************************************)
(* Storing (C24).                                                          *)
(***************************************************************************)
JStore(prop, m, e) ==
  IF prop \notin {"C24", "C16"} THEN {}
  ELSE (IF e.same THEN {} ELSE {"storing as " \o e.via \o " changed the file"}) \cup
       (IF prop = "C16" THEN {}
        ELSE IF e.out # "ok" THEN {"cannot be stored as " \o e.via}
        ELSE IF ~e.eq THEN {"another file came back from " \o e.via} ELSE {})
\* writing the same contents again
SameWritten(m, e) ==
  IF m.wrote = <<>> THEN {}
  ELSE IF m.wrote[1][1] # e.out THEN {"writing gave " \o m.wrote[1][1] \o " first and then " \o e.out}
  ELSE IF e.out = "ok" /\ m.wrote[1][2] # e.data THEN {"writing the same contents gave other bytes"} ELSE {}

(***************************************************************************)
(* Independence (C16).                                                     *)
(***************************************************************************)
JKnown(b, e) ==
  LET k == <<"bytes", Buf(b)>> IN
  IF "know" \in DOMAIN e /\ k \in DOMAIN learned /\ learned[k] # Known(Buf(b), e)
  THEN {"the same bytes gave another result: was " \o learned[k][1] \o ", now " \o e.out} ELSE {}
JIndependent(e) ==
  CASE e.out \in {"panic", "crash", "hang"} -> {e.op \o ": " \o e.out}
    [] e.op = "parse" -> (IF e.same THEN {} ELSE {"parsing changed its input"}) \cup JKnown(e.b, e)
    [] e.op = "view" ->
         IF files[e.f].seen # <<>> /\ files[e.f].seen[1] # e.view
         THEN {"changed by something else: " \o x : x \in Diff(files[e.f].seen[1], e.view, "file") \cup Diff(e.view, files[e.f].seen[1], "file") \cup {"file"}}
         ELSE {}
    [] e.op = "marshal" -> (IF e.same THEN {} ELSE {"writing changed the file"}) \cup SameWritten(files[e.f], e)
    [] e.op = "display" -> IF e.same THEN {} ELSE {"displaying changed the file"}
    [] e.op = "dump" -> IF e.data = Buf(e.b) THEN {} ELSE {"a buffer of the caller changed: " \o e.b}
    [] e.op = "par" -> IF e.differ = <<>> THEN {} ELSE {"concurrent reading gave another result"}
    [] OTHER -> {}
====
