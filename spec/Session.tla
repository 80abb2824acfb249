---- MODULE Session ----
(***************************************************************************)
(* A caller's session with the library: byte buffers the caller owns and   *)
(* files the library handed out.  Every action is one public call; the     *)
(* abstract file remembers which bytes it must stand for.                  *)
(*                                                                         *)
(* Each call has a judgement: given the state, the arguments and what the  *)
(* call was observed to do, the set of complaints (strings) that one       *)
(* property has about it.  An empty set means that the step is a step the  *)
(* specification allows.                                                   *)
(***************************************************************************)
EXTENDS Vu

VARIABLES bufs,      \* name -> [data |-> bytes, canon |-> written by the library]
          files,     \* handle -> abstract file
          learned    \* <<tag, bytes>> of an elementary file -> how it was shown when read alone

svars == <<bufs, files, learned>>
Nothing == [k \in {} |-> 0]
SInit == bufs = Nothing /\ files = Nothing /\ learned = Nothing

Buf(b) == bufs[b].data
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(***************************************************************************)
(* Reading.                                                                *)
(***************************************************************************)
EfTroubles(fid, gen, v) ==
  LET lay == LayoutOf(fid, gen) IN
  IF lay.kind = "cert" THEN 
    (IF ~EfLen(fid, gen, v) THEN {"err"} ELSE IF gen = 1 \/ EccOk(v) THEN {} ELSE {"may"})
  ELSE IF lay.kind = "activity" THEN
    (IF Len(v) < 4 THEN {"err"} ELSE IF ActMust(v) \/ ActEmpty(v) THEN {} ELSE {"may"})
  ELSE IF ~EfLen(fid, gen, v) THEN (IF lay.kind = "table" THEN {"may"} ELSE {"err"})
  ELSE LET n == EfNode("all", fid, gen, v) IN
       (IF Has("r", n) THEN {"may"} ELSE {}) \cup (IF Has("x", n) THEN {"err"} ELSE {})
\* must a driver card download be accepted, rejected, or is either allowed?
DriverOutcome(recs) ==
  IF ~Assemble(recs).ok THEN "err"
  ELSE LET t == UNION {IF IsSig(recs[i]) \/ ~Modelled(recs[i].fid) THEN {}
                       ELSE EfTroubles(recs[i].fid, PlaceOf(recs[i])[2], recs[i].v) : i \in 1..Len(recs)} IN
       IF "err" \in t THEN "err" ELSE IF "may" \in t THEN "either" ELSE "ok"
\* ... and any download
Outcome(b) ==
  IF IsCardDownload(b) THEN
    (IF ~Framed(b) THEN "err"
     ELSE LET recs == Records(b) k == CardKind(recs) IN
          IF k = "raw" THEN "ok" ELSE IF k = "either" THEN "either" ELSE DriverOutcome(recs))
  ELSE IF IsVuDownload(b) THEN VuOutcome(b)
  ELSE "err"

\* the abstract file a successful parse returns
ModelOf(b, e) ==
  IF IsCardDownload(b) /\ Framed(b) THEN
    LET recs == Records(b) IN
    IF e.kind = 2 THEN [kind |-> "driver", src |-> b, recs |-> recs, card |-> Assemble(recs).card]
    ELSE [kind |-> "raw", src |-> b, recs |-> recs, card |-> NoCard]
  ELSE IF IsVuDownload(b) THEN [kind |-> "vu", src |-> b, recs |-> <<>>, card |-> NoCard]
  ELSE [kind |-> "none", src |-> b, recs |-> <<>>, card |-> NoCard]

WellReported(e) == e.out \in {"ok", "err"}
Word(out) == IF out = "ok" THEN "accepted" ELSE IF out = "err" THEN "rejected" ELSE out
Against(want, e) ==
  IF want = "either" \/ e.out = want \/ (want = "err" /\ e.out # "ok") THEN {}
  ELSE {"must be " \o Word(want) \o ", was " \o Word(e.out)}

\* differences between the view and the bytes of the places ps of a card
PlaceDiff(fo, p, v, view) ==
  IF LayoutOf(p[1], p[2]).kind = "activity"
  THEN ActDiff(fo, v, Get(view, ViewPath(p)), Path2(p))
  ELSE Diff(EfNode(fo, p[1], p[2], v), Get(view, ViewPath(p)), Path2(p))
ViewDiff(fo, card, view, kinds) ==
  UNION {PlaceDiff(fo, p, card[p].v, view) :
         p \in {q \in DOMAIN card : LayoutOf(q[1], q[2]).kind \in kinds /\ EfLen(q[1], q[2], card[q].v)}}

KindsFor(prop) ==
  CASE prop = "C06" -> {"activity"}
    [] prop = "C07" -> {"activity"}
    [] prop = "C08" -> {"table"}
    [] prop = "C09" -> {"single", "appid", "appidv2", "ident", "control", "cert"}
    [] prop \in {"C10", "C11"} -> {"single", "appid", "appidv2", "ident", "control", "table", "activity"}
FocusFor(prop) == IF prop = "C10" THEN "code" ELSE IF prop = "C11" THEN "text" ELSE "all"

\* C03: every place shows exactly what its record showed when it was read alone
SameAsAlone(recs, view) ==
  LET card == Assemble(recs).card
      root == Get(view, <<"driver_card">>)
      shown(p) == Get(view, ViewPath(p)) IN
  UNION {IF p \in DOMAIN card
         THEN LET key == <<p, card[p].v>> IN
              IF key \in DOMAIN learned THEN Diff(learned[key], shown(p), Path2(p)) \cup
                                             Diff(shown(p), learned[key], Path2(p))
              ELSE IF shown(p)[1] = "n" THEN {Path2(p) \o " is missing"} ELSE {}
         ELSE IF shown(p)[1] # "n" THEN {Path2(p) \o " shows a file that is not in the download"} ELSE {}
         : p \in Places} \cup
  UNION {LET f == IF g = 1 THEN "tachograph" ELSE "tachograph_g2"
             has == \E p \in DOMAIN card : p[2] = g /\ p[1] \notin {2, 5}
             seen == Get(view, <<"driver_card", f>>)[1] # "n" IN
         IF has = seen THEN {} ELSE {f \o (IF has THEN " is missing" ELSE " is present without a file")}
         : g \in {1, 2}}

SigShown(view, p) == Get(view, ViewPath(p) \o <<"signature">>)
SigDiff(card, view) ==
  UNION {LET s == SigShown(view, p) IN
         IF card[p].sig = <<>> THEN (IF s[1] = "n" THEN {} ELSE {Path2(p) \o " shows a signature it does not have"})
         ELSE IF s = V(card[p].sig[1]) \/ (card[p].sig[1] = <<>> /\ s[1] = "n") THEN {}
         ELSE {Path2(p) \o " does not show its signature"}
         : p \in {q \in DOMAIN card : EfOf(q[1]).signed}}

JParse(prop, b, e) ==
  LET card == IsCardDownload(b)
      framed == card /\ Framed(b)
      recs == Records(b)
      kind == CardKind(recs)
      driver == framed /\ kind = "driver"
      okview == e.out = "ok" /\ "view" \in DOMAIN e IN
  CASE prop = "C01" ->
         IF ~card THEN {}
         ELSE IF ~framed THEN Against("err", e)
         ELSE Against(Outcome(b), e) \cup
              (IF kind = "raw" /\ okview THEN Diff(RawCardNode(recs), Get(e.view, <<"raw_card">>), "raw_card") ELSE {})
    [] prop = "C02" ->
         IF Len(b) < 2 THEN
            Against("err", e) \cup (IF e.out = "err" /\ ~e.eof THEN {"short input is not reported as unexpected end of file"} ELSE {})
         ELSE IF ~card /\ ~IsVuDownload(b) THEN Against("err", e)
         ELSE IF card THEN
            (IF framed /\ kind = "raw" THEN Against("ok", e) ELSE {}) \cup
            (IF driver THEN Against(Outcome(b), e) ELSE {}) \cup
            (IF framed /\ e.out = "ok" /\ kind # "either" /\ e.kind # (IF driver THEN 2 ELSE 6)
             THEN {"read as kind " \o ToString(e.kind) \o " though its files make it a " \o kind \o " card"} ELSE {}) \cup
            (IF framed /\ kind = "raw" /\ okview THEN Diff(RawCardNode(recs), Get(e.view, <<"raw_card">>), "raw_card") ELSE {})
         ELSE Against(VuOutcome(b), e) \cup
              (IF e.out = "ok" /\ e.kind # 1 THEN {"a vehicle unit download read as kind " \o ToString(e.kind)} ELSE {})
    [] prop = "C03" ->
         IF ~driver THEN {}
         ELSE IF "learn" \in DOMAIN e THEN Against(Outcome(b), e)
         ELSE LET a == Assemble(recs) IN
              IF ~a.ok THEN Against("err", e)
              ELSE Against(Outcome(b), e) \cup (IF okview THEN SameAsAlone(recs, e.view) ELSE {})
    [] prop = "C04" ->
         IF ~driver THEN {}
         ELSE LET a == Assemble(recs) IN
              IF ~a.ok THEN Against("err", e)
              ELSE Against(Outcome(b), e) \cup (IF okview THEN SigDiff(a.card, e.view) ELSE {})
    [] prop = "C05" -> IF driver THEN Against(Outcome(b), e) ELSE {}
    [] prop \in {"C06", "C07", "C08", "C09", "C10", "C11"} ->
         IF ~driver THEN {}
         ELSE Against(Outcome(b), e) \cup
              (IF okview THEN ViewDiff(FocusFor(prop), Assemble(recs).card, e.view, KindsFor(prop)) ELSE {})
    [] prop = "C12" ->      \* framing: judged on downloads of one kind
         IF ~IsVuDownload(b) THEN {}
         ELSE LET s == VuSplit(b) IN
              IF ~s.ok THEN Against("err", e)
              ELSE IF ~VuUniform(s.ts) \/ VuMayReject(s.ts) THEN {}
              ELSE Against("ok", e) \cup (IF okview THEN VuDiff(FALSE, s.ts, e.view) ELSE {})
    [] prop = "C13" ->      \* generation and version: judged on downloads that split
         IF ~IsVuDownload(b) THEN {}
         ELSE LET s == VuSplit(b) IN
              IF ~s.ok THEN {}
              ELSE IF ~VuUniform(s.ts) THEN Against("err", e)
              ELSE (IF VuMayReject(s.ts) THEN {} ELSE Against("ok", e)) \cup
                   (IF okview THEN VuKindDiff(s.ts, e.view) \cup VuDiff(FALSE, s.ts, e.view) ELSE {})
    [] prop = "C14" ->
         IF ~IsVuDownload(b) THEN {}
         ELSE LET s == VuSplit(b) IN
              IF ~s.ok \/ ~VuUniform(s.ts) \/ VuGen(s.ts) # 1 THEN {}
              ELSE Against(VuOutcome(b), e) \cup (IF okview THEN VuDiff(TRUE, s.ts, e.view) ELSE {})
    [] OTHER -> {}

(***************************************************************************)
(* Writing.                                                                *)
(***************************************************************************)
\* nation codes outside the table: the model does not keep their bytes
Unwritable(m) == {p \in DOMAIN m.card : HasNation(EfNode("all", p[1], p[2], m.card[p].v))}
Dropped(m) == {i \in 1..Len(m.recs) : ~Modelled(m.recs[i].fid)}
CardDiff(want, got) ==
  {"not written: " \o Path2(p) : p \in DOMAIN want \ DOMAIN got} \cup
  {"written though absent: " \o Path2(p) : p \in DOMAIN got \ DOMAIN want} \cup
  {"bytes changed: " \o Path2(p) : p \in {q \in DOMAIN want \cap DOMAIN got : want[q].v # got[q].v}}
SigsDiff(want, got) ==
  {"signature changed: " \o Path2(p) : p \in {q \in DOMAIN want \cap DOMAIN got : want[q].sig # got[q].sig}}

JMarshal(prop, m, e) ==
  LET fr == Framed(e.data)
      w == Written(e.data) IN
  CASE prop = "C01" ->
         IF m.kind # "raw" THEN {}
         ELSE IF e.out # "ok" THEN {"a raw card file could not be written"}
         ELSE IF e.data = m.src THEN {} ELSE {"writing the records back gives other bytes"}
    [] prop = "C02" ->
         IF m.kind = "raw" /\ (e.out # "ok" \/ e.data # m.src) THEN {"the raw card file is not lossless"} ELSE {}
    [] prop = "C04" ->
         IF m.kind # "driver" \/ e.out # "ok" \/ ~fr THEN {}
         ELSE {x \in w.bad : SubSeq(x, 1, 5) = "stray"} \cup SigsDiff(m.card, w.card)
    [] prop \in {"C05", "C10", "C11"} ->
         IF m.kind # "driver" THEN {}
         ELSE IF e.out # "ok" THEN
            (IF e.out = "err" /\ Unwritable(m) # {}
             THEN IF prop = "C05" THEN {"not writable, unlisted nation code: " \o Path2(p) : p \in Unwritable(m)} ELSE {}
             ELSE {"a parsed card could not be written: " \o e.out})
         ELSE IF ~fr THEN {"the output is not a card download"}
         ELSE IF prop = "C05" THEN
            w.bad \cup CardDiff(m.card, w.card) \cup SigsDiff(m.card, w.card) \cup
            {"dropped: EF " \o ToString(m.recs[i].fid) : i \in Dropped(m)} \cup
            (IF m.canon /\ e.data # m.src THEN {"writing again gives other bytes"} ELSE {})
         ELSE {x \in CardDiff(m.card, w.card) : SubSeq(x, 1, 5) = "bytes"}
    [] OTHER -> {}

(***************************************************************************)
(* The calls as actions.                                                   *)
(***************************************************************************)
NewCase == bufs' = Nothing /\ files' = Nothing /\ learned' = Nothing
Plain(data, canon) == [data |-> data, canon |-> canon, claim |-> <<>>]
SetBuf(b, data) == bufs' = (b :> Plain(data, FALSE)) @@ bufs /\ UNCHANGED <<files, learned>>
Poke(b, at, v) ==
  /\ bufs' = [bufs EXCEPT ![b].data = SubSeq(@, 1, at) \o v \o SubSeq(@, at + Len(v) + 1, Len(@)), ![b].claim = <<>>]
  /\ UNCHANGED <<files, learned>>
Fill(b, x) ==
  /\ bufs' = [bufs EXCEPT ![b].data = Rep(x, Len(@)) \o <<>>, ![b].claim = <<>>]
  /\ UNCHANGED <<files, learned>>
\* how a file was last seen and last written, as long as nobody changed it
Fresh(e) == [seen |-> IF "view" \in DOMAIN e THEN <<e.view>> ELSE <<>>, wrote |-> <<>>, edited |-> FALSE]
Known(b, e) == <<e.out, IF e.out = "ok" THEN e.kind ELSE 0, IF "view" \in DOMAIN e THEN e.view ELSE None>>
Parse(b, f, e) ==
  /\ files' = IF e.out = "ok" THEN (f :> ([canon |-> bufs[b].canon] @@ Fresh(e) @@ ModelOf(Buf(b), e))) @@ files ELSE Without(files, f)
  /\ learned' = IF "learn" \in DOMAIN e /\ e.out = "ok" /\ Framed(Buf(b))
                THEN LET recs == Records(Buf(b)) r == recs[Len(recs)] p == PlaceOf(r) IN
                     (<<p, r.v>> :> Get(e.view, ViewPath(p))) @@ learned
                ELSE IF "know" \in DOMAIN e THEN (<<"bytes", Buf(b)>> :> Known(Buf(b), e)) @@ learned
                ELSE learned
  /\ UNCHANGED bufs
\* what was written stands for the file's contents: as bytes known exactly
\* (card) or as it was shown before (view)
Claim(m) == IF ~m.edited THEN <<>>
            ELSE IF m.kind # "none" THEN
               (IF "touched" \in DOMAIN m /\ m.kind = "driver" THEN <<[how |-> "card", card |-> m.card, touched |-> m.touched, loose |-> m.loose]>> ELSE <<>>)
            ELSE IF m.seen # <<>> THEN <<[how |-> "view", view |-> m.seen[1]]>> ELSE <<>>
Marshal(f, e) ==
  /\ bufs' = IF "b" \notin DOMAIN e THEN bufs
             ELSE IF e.out = "ok" THEN (e.b :> [data |-> e.data, canon |-> ~files[f].edited, claim |-> Claim(files[f])]) @@ bufs
             ELSE Without(bufs, e.b)
  /\ files' = [files EXCEPT ![f].wrote = <<<<e.out, IF e.out = "ok" THEN e.data ELSE <<>>>>>>]
  /\ UNCHANGED learned
====
