---- MODULE Judge ----
(* Which action an event is, and which judgement it is put to. *)
EXTENDS Anon, Values

Complaints(prop, e) ==
  IF e.out = "skip" THEN {}
  ELSE IF e.out \in {"panic", "crash", "hang"} THEN {e.op \o ": " \o e.out}
  ELSE IF e.op = "value" THEN JValue(e)
  ELSE IF e.op = "saytext" THEN JSetText(e)
  ELSE IF prop = "C16" THEN JIndependent(e) \cup (IF e.op = "store" THEN JStore(prop, files[e.f], e) ELSE {})
  ELSE IF prop = "C23" THEN JEncode(e)
  ELSE IF prop = "C21" THEN JAnon(e)
  ELSE IF prop = "C22" THEN
    CASE e.out \in {"panic", "crash", "hang"} -> {e.op \o ": " \o e.out}
      [] e.op = "parse" -> JEditParse(e.b, e)
      [] e.op = "marshal" -> JEditMarshal(files[e.f], e)
      [] OTHER -> {}
  ELSE CASE e.op = "parse" -> JParse(prop, Buf(e.b), e)
         [] e.op = "marshal" -> IF prop = "C24" THEN SameWritten(files[e.f], e) ELSE JMarshal(prop, files[e.f], e)
         [] e.op = "equal" -> IF prop = "C05" /\ ~e.eq THEN {"reading the output gives another model"} ELSE {}
         [] e.op = "store" -> JStore(prop, files[e.f], e)
         [] OTHER -> {}

StepOf(e) ==
  IF e.out = "skip" THEN
     IF e.op = "parse" THEN files' = Without(files, e.f) /\ UNCHANGED <<bufs, learned>>
     ELSE IF e.op = "marshal" /\ "b" \in DOMAIN e THEN bufs' = Without(bufs, e.b) /\ UNCHANGED <<files, learned>>
     ELSE IF e.op \in {"store", "clone", "anon"} THEN files' = Without(files, e.g) /\ UNCHANGED <<bufs, learned>>
     ELSE UNCHANGED svars
  ELSE CASE e.op = "case" -> NewCase
         [] e.op = "buf" -> SetBuf(e.b, e.data)
         [] e.op = "poke" -> Poke(e.b, e.at, e.v)
         [] e.op = "fill" -> Fill(e.b, e.v)
         [] e.op = "parse" -> Parse(e.b, e.f, e)
         [] e.op = "marshal" /\ IsCopy(files[e.f]) -> AnonMarshal(e.f, e)
         [] e.op = "marshal" -> Marshal(e.f, e)
         [] e.op = "new" -> NewFile(e.f)
         [] e.op = "anon" -> Anonymise(e.f, e.g, e)
         [] e.op = "view" -> View(e.f, e)
         [] e.op = "store" -> Store(e.f, e.g, e)
         [] e.op = "scribble" -> Scribble(e.f)
         [] e.op = "graft" -> Graft(e.f, e.g, e.act, e.path)
         [] e.op = "mutate" -> Mutate2(e.f, e)
         [] e.op = "clone" -> Clone(e.f, e.g)
         [] OTHER -> UNCHANGED svars
====
