---- MODULE Edit ----
(***************************************************************************)
(* Editing a parsed file (C22): an edit takes the value at one path over   *)
(* from a donor file.  What it means for the bytes the file stands for is  *)
(* decided by the layouts alone: the bytes of that field, slot or file     *)
(* become those of the donor and nothing else changes.                     *)
(***************************************************************************)
EXTENDS Use

\* ---- which bytes a path names ------------------------------------------
FieldNo(fs, name) == CHOOSE i \in 1..Len(fs) : fs[i].n = name \/ "unrecognized_" \o fs[i].n = name
Span(o, w) == [k \in 1..w |-> o + k]
RECURSIVE FieldSpan(_, _, _)
FieldSpan(fs, names, o) ==
  LET i == FieldNo(fs, names[1]) IN
  IF Len(names) = 1 \/ fs[i].t # "group" THEN Span(o + OffsetOf(fs, i), fs[i].w)
  ELSE FieldSpan(fs[i].fs, Tail(names), o + OffsetOf(fs, i))
\* positions, in the file, of byte k of the day that comes i-th (from 0), oldest first
DaySpan(v, i, o, w) ==
  LET recs == ActChain(v).recs r == recs[Len(recs) - i] size == Len(v) - 4 IN
  [k \in 1..w |-> 4 + ((r[1] + o + k - 1) % size) + 1]
PathSpan(p, rest, v) ==
  LET lay == LayoutOf(p[1], p[2]) IN
  CASE lay.kind = "single" -> FieldSpan(lay.rec, rest, 0)
    [] lay.kind = "appid" ->
         FieldSpan(IF p[2] = 1 THEN AppIdFields1 ELSE AppIdFields2, IF rest[1] = "driver" THEN Tail(rest) ELSE rest, 0)
    [] lay.kind = "appidv2" -> FieldSpan(AppIdV2Fields, Tail(rest), 0)
    [] lay.kind = "ident" ->
         IF rest[1] = "driver_card_holder" THEN FieldSpan(IdentHolderFields, Tail(rest), 65)
         ELSE IF rest[2] \in {"driver_identification", "owner_identification"} THEN Span(1, 16)
         ELSE FieldSpan(IdentCardFields, Tail(rest), 0)
    [] lay.kind = "control" -> FieldSpan(ControlFields, rest, 0)
    [] lay.kind = "table" ->
         IF rest[1] # lay.list THEN FieldSpan(lay.head, rest, 0)
         ELSE LET w == Width(lay.rec) o == Width(lay.head) + rest[2] * w IN
              IF Len(rest) = 2 THEN Span(o, w) ELSE FieldSpan(lay.rec, SubSeq(rest, 3, Len(rest)), o)
    [] lay.kind = "activity" ->
         IF rest[3] = "activity_change_info" THEN DaySpan(v, rest[2], 12 + 2 * rest[4], 2)
         ELSE LET i == FieldNo(DayFields, rest[3]) IN DaySpan(v, rest[2], OffsetOf(DayFields, i), DayFields[i].w)

\* v with the bytes at positions s replaced by xs
Patched(v, s, xs) ==
  LET at == [k \in {s[i] : i \in 1..Len(s)} |-> xs[CHOOSE i \in 1..Len(s) : s[i] = k]] IN
  Force([k \in 1..Len(v) |-> IF k \in DOMAIN at THEN at[k] ELSE v[k]])
Bytes2(v, s) == [i \in 1..Len(s) |-> v[s[i]]]

\* ---- lists --------------------------------------------------------------
ListAct(act, items, i, x) ==                      \* i from 0
  CASE act = "set" -> [items EXCEPT ![i + 1] = x]
    [] act = "append" -> Append(items, x)
    [] act = "insert" -> SubSeq(items, 1, i) \o <<x>> \o SubSeq(items, i + 1, Len(items))
    [] act = "delete" -> SubSeq(items, 1, i) \o SubSeq(items, i + 2, Len(items))
SlotsOf(lay, v) ==
  LET h == Width(lay.head) w == Width(lay.rec) IN
  Force([i \in 1..((Len(v) - h) \div w) |-> Sub(v, h + (i - 1) * w, w)])
\* contents of the days, without their four header bytes, oldest first
DayBodies(v) ==
  LET recs == ActChain(v).recs n == Len(recs) IN
  Force([i \in 1..n |-> LET r == recs[n + 1 - i] IN Ring(ActRing(v), r[1] + 4, r[2] - 4)])
LastDayAt(days) == SumN([i \in 1..(Len(days) - 1) |-> Len(days[i]) + 4])
Rechained(days) == IF days = <<>> THEN <<0, 0, 0, 0>> ELSE B16(0) \o B16(LastDayAt(days)) \o Chained(days, 0)

\* ---- one edit of an abstract file ---------------------------------------
PlacesOf(path) == {p \in Places : LET v == ViewPath(p) IN Len(path) >= Len(v) /\ \A i \in 1..Len(v) : path[i] = v[i]}
Touch(m, p, entry) == [m EXCEPT !.card = (p :> entry) @@ @, !.touched = @ \cup {p}]
EditPlace(m, d, p, act, rest) ==
  LET lay == LayoutOf(p[1], p[2]) old == m.card[p] IN
  IF rest = <<>> THEN
     (IF act = "strip" /\ lay.kind = "activity" THEN
        [Touch(m, p, [old EXCEPT !.v = Rechained(DayBodies(@))]) EXCEPT !.loose = @ \cup {p}]
      ELSE IF act = "strip" THEN [m EXCEPT !.touched = @ \cup {p}]
      ELSE IF p \in DOMAIN d.card THEN Touch(m, p, d.card[p])
      ELSE [m EXCEPT !.card = Without(@, p), !.touched = @ \cup {p}])
  ELSE IF act = "strip" THEN [m EXCEPT !.touched = @ \cup {p}]
  ELSE IF rest[1] = "signature" THEN Touch(m, p, [old EXCEPT !.sig = d.card[p].sig])
  ELSE IF lay.kind = "table" /\ rest[1] = lay.list /\ Len(rest) = 2 THEN
     LET x == IF act = "delete" THEN <<>> ELSE SlotsOf(lay, d.card[p].v)[rest[2] + 1] IN
     Touch(m, p, [old EXCEPT !.v = Sub(@, 0, Width(lay.head)) \o Flat(ListAct(act, SlotsOf(lay, @), rest[2], x))])
  ELSE IF lay.kind = "activity" /\ rest[1] = "daily_records" /\ Len(rest) = 2 THEN
     LET x == IF act = "delete" THEN <<>> ELSE DayBodies(d.card[p].v)[rest[2] + 1]
         days == ListAct(act, DayBodies(old.v), rest[2], x) IN
     [Touch(m, p, [old EXCEPT !.v = Rechained(days)]) EXCEPT !.loose = @ \cup {p}]
  ELSE IF lay.kind = "activity" /\ act # "set" THEN         \* a change of a day
     LET days == DayBodies(old.v) i == rest[2] + 1
         ws(b) == Force([k \in 1..((Len(b) - 8) \div 2) |-> Sub(b, 8 + 2 * (k - 1), 2)])
         x == IF act = "delete" THEN <<>> ELSE ws(DayBodies(d.card[p].v)[i])[rest[4] + 1]
         new == Sub(days[i], 0, 8) \o Flat(ListAct(act, ws(days[i]), rest[4], x)) IN
     [Touch(m, p, [old EXCEPT !.v = Rechained([days EXCEPT ![i] = new])]) EXCEPT !.loose = @ \cup {p}]
  ELSE Touch(m, p, [old EXCEPT !.v = Patched(@, PathSpan(p, rest, @), Bytes2(d.card[p].v, PathSpan(p, rest, d.card[p].v)))])
\* a whole application
EditApp(m, d, g) ==
  LET mine == {p \in Places : p[2] = g /\ p[1] \notin {2, 5}}
      taken == {p \in mine : p \in DOMAIN d.card} IN
  [m EXCEPT !.card = [p \in (DOMAIN @ \ mine) \cup taken |-> IF p \in mine THEN d.card[p] ELSE @[p]], !.touched = @ \cup mine]
EditRaw(m, d, act, path) ==
  LET i == path[3] IN
  [m EXCEPT !.recs = IF Len(path) = 3 THEN ListAct(act, @, i, IF act = "delete" THEN <<>> ELSE d.recs[i + 1])
                     ELSE [@ EXCEPT ![i + 1].v = d.recs[i + 1].v]]
Edited(m, d, act, path) ==
  LET n == IF "touched" \in DOMAIN m THEN m ELSE m @@ [touched |-> {}, loose |-> {}]
      e == [n EXCEPT !.seen = <<>>, !.wrote = <<>>, !.edited = TRUE] IN
  IF m.kind = "raw" THEN EditRaw(e, d, act, path)
  ELSE IF m.kind = "driver" THEN
    (IF PlacesOf(path) # {} THEN LET p == CHOOSE p \in PlacesOf(path) : TRUE IN
        EditPlace(e, d, p, act, SubSeq(path, Len(ViewPath(p)) + 1, Len(path)))
     ELSE IF act = "strip" THEN [e EXCEPT !.touched = DOMAIN m.card]
     ELSE EditApp(e, d, IF path[2] = "tachograph" THEN 1 ELSE 2))
  ELSE Lost(m)
Graft(f, g, act, path) == files' = [files EXCEPT ![f] = Edited(@, files[g], act, path)] /\ UNCHANGED <<bufs, learned>>
Mutate(f) == Scribble(f)

(***************************************************************************)
(* What writing an edited file must give.                                  *)
(***************************************************************************)
JEditMarshal(m, e) ==
  IF m.kind = "none" \/ ~m.edited THEN {}
  ELSE IF m.kind = "vu" THEN {}
  ELSE IF e.out # "ok" THEN {"an edited file could not be written: " \o e.out}
  ELSE IF m.kind = "raw" THEN (IF e.data = Stream(m.recs) THEN {} ELSE {"the edited records are not what is written"})
  ELSE IF ~Framed(e.data) THEN {"the output is not a card download"}
  ELSE LET w == Written(e.data) IN
       w.bad \cup CardDiff([p \in DOMAIN m.card |-> IF p \in m.touched /\ p \in DOMAIN w.card THEN w.card[p] ELSE m.card[p]], w.card)
       \cup SigsDiff(m.card, w.card)
       \cup {"length changed: " \o Path2(p) : p \in {q \in (m.touched \ m.loose) \cap DOMAIN m.card \cap DOMAIN w.card :
                                                    Len(m.card[q].v) # Len(w.card[q].v)}}
\* layout of a rebuilt ring is the writer's business
RECURSIVE Loosened(_)
Loosened(n) ==
  CASE n[1] = "l" -> Lst([i \in 1..Len(n[2]) |-> Loosened(n[2][i])])
    [] n[1] = "m" -> Msg([k \in DOMAIN n[2] |->
         IF k \in {"activity_previous_record_length", "activity_record_length", "oldest_day_record_index", "newest_day_record_index"}
         THEN Whatever ELSE Loosened(n[2][k])])
    [] OTHER -> n
\* which bytes stand for the padding of a text is not part of its value
RECURSIVE Shown(_)
Shown(n) ==
  CASE n[1] = "l" -> Lst([i \in 1..Len(n[2]) |-> Shown(n[2][i])])
    [] n[1] = "m" -> Msg([k \in DOMAIN n[2] |-> IF k = "raw_data" /\ "value" \in DOMAIN n[2] THEN Whatever ELSE Shown(n[2][k])])
    [] OTHER -> n
EditPlaceDiff(p, v, view) == Diff(Shown(EfNode("all", p[1], p[2], v)), Get(view, ViewPath(p)), Path2(p))
LoosePlaceDiff(p, v, view) ==
  Diff(Loosened(ActNode("all", v, ActDays("all", v))), Get(view, ViewPath(p)), Path2(p))
JEditParse(b, e) ==
  IF bufs[b].claim = <<>> \/ bufs[b].claim[1].how # "card" THEN {}
  ELSE LET c == bufs[b].claim[1] IN
       IF e.out # "ok" THEN {"what was written cannot be read: " \o e.out}
       ELSE IF "view" \notin DOMAIN e \/ e.kind # 2 THEN {}
       ELSE UNION {IF p \in c.loose THEN LoosePlaceDiff(p, c.card[p].v, e.view)
                   ELSE EditPlaceDiff(p, c.card[p].v, e.view) : p \in c.touched \cap DOMAIN c.card} \cup
            {Path2(p) \o " is there though it was removed" :
               p \in {q \in c.touched \ DOMAIN c.card : Get(e.view, ViewPath(q))[1] # "n"}}
====
