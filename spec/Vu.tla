---- MODULE Vu ----
(***************************************************************************)
(* Vehicle-unit downloads: a sequence of transfers, each a two-byte tag    *)
(* and a value whose extent follows from its own counts.                   *)
(***************************************************************************)
EXTENDS Card

(* Transfers: generation, version (0: the same in both), what it is, and   *)
(* for generation 2 the number of record arrays.                           *)
X(tag, gen, ver, what, arrays) == [tag |-> tag, gen |-> gen, ver |-> ver, what |-> what, arrays |-> arrays]
Transfers == <<
  X(0,  2, 2, "download_interface_version", 0),
  X(1,  1, 0, "overview", 0), X(2, 1, 0, "activities", 0), X(3, 1, 0, "events_and_faults", 0),
  X(4,  1, 0, "detailed_speed", 0), X(5, 1, 0, "technical_data", 0),
  X(6,  0, 0, "card_download", 0),
  X(33, 2, 1, "overview", 11), X(34, 2, 1, "activities", 8), X(35, 2, 1, "events_and_faults", 6),
  X(36, 2, 0, "detailed_speed", 2), X(37, 2, 1, "technical_data", 8),
  X(49, 2, 2, "overview", 11), X(50, 2, 2, "activities", 10), X(51, 2, 2, "events_and_faults", 6),
  X(53, 2, 2, "technical_data", 8)>>
TransferOf(t) == IF \E i \in 1..Len(Transfers) : Transfers[i].tag = t
                 THEN Transfers[CHOOSE i \in 1..Len(Transfers) : Transfers[i].tag = t]
                 ELSE X(-1, 0, 0, "none", 0)
Single1 == {"overview", "download_interface_version"}     \* the model holds one of these

(***************************************************************************)
(* Extents.  A part is either a fixed number of bytes or a counter of w    *)
(* bytes followed by that many records.                                    *)
(***************************************************************************)
Fixed(n) == [w |-> 0, size |-> n]
Counted(w, n) == [w |-> w, size |-> n]
Parts1(what) ==
  CASE what = "overview" -> <<Fixed(491), Counted(1, 98), Counted(1, 31), Fixed(128)>>
    [] what = "activities" -> <<Fixed(7), Counted(2, 129), Counted(2, 2), Counted(1, 28), Counted(2, 5), Fixed(128)>>
    [] what = "events_and_faults" -> <<Counted(1, 82), Counted(1, 83), Fixed(9), Counted(1, 31), Counted(1, 98), Fixed(128)>>
    [] what = "detailed_speed" -> <<Counted(2, 64), Fixed(128)>>
    [] what = "technical_data" -> <<Fixed(136), Counted(1, 167), Fixed(128)>>
UInt(b, o, w) == IF w = 1 THEN At(b, o) ELSE U16(b, o)
\* the offset after the part at offset o, or -1 if it does not fit into b
AfterPart(b, o, p) ==
  IF p.w = 0 THEN (IF o + p.size > Len(b) THEN -1 ELSE o + p.size)
  ELSE IF o + p.w > Len(b) THEN -1
  ELSE LET e == o + p.w + UInt(b, o, p.w) * p.size IN IF e > Len(b) THEN -1 ELSE e
\* offsets before each part and after the last one; shorter if they do not fit
RECURSIVE PartOffsets(_, _, _, _)
PartOffsets(b, o, ps, acc) ==
  IF Len(ps) = 0 THEN Append(acc, o)
  ELSE LET e == AfterPart(b, o, ps[1]) IN
       IF e < 0 THEN acc ELSE PartOffsets(b, e, Tail(ps), Append(acc, o))
\* record arrays: type, two-byte record size, two-byte count, records; the product is kept
\* within TLC's integers by comparing with what is left
AfterArray(b, o) ==
  IF o + 5 > Len(b) THEN -1
  ELSE LET s == U16(b, o + 1) n == U16(b, o + 3) left == Len(b) - o - 5 IN
       IF s = 0 \/ n = 0 THEN o + 5
       ELSE IF n > left \div s THEN -1 ELSE o + 5 + s * n
RECURSIVE AfterArrays(_, _, _)
AfterArrays(b, o, k) ==
  IF k = 0 \/ o < 0 THEN o ELSE AfterArrays(b, AfterArray(b, o), k - 1)
\* the offset after the value of transfer x at offset o, or -1
AfterValue(b, o, x) ==
  IF x.what = "download_interface_version" THEN (IF o + 2 > Len(b) THEN -1 ELSE o + 2)
  ELSE IF x.gen = 1 THEN
    LET ps == Parts1(x.what) offs == PartOffsets(b, o, ps, <<>>) IN
    IF Len(offs) = Len(ps) + 1 THEN offs[Len(offs)] ELSE -1
  ELSE IF x.gen = 2 THEN AfterArrays(b, o, x.arrays)
  ELSE -1

RECURSIVE VuSplitAt(_, _, _)
VuSplitAt(b, o, acc) ==
  IF o = Len(b) THEN [ok |-> TRUE, ts |-> acc]
  ELSE IF o + 2 > Len(b) \/ At(b, o) # 118 THEN [ok |-> FALSE, ts |-> acc]
  ELSE LET x == TransferOf(At(b, o + 1)) e == IF x.tag < 0 THEN -1 ELSE AfterValue(b, o + 2, x) IN
       IF e < 0 THEN [ok |-> FALSE, ts |-> acc]
       ELSE VuSplitAt(b, e, Append(acc, [x |-> x, v |-> Sub(b, o + 2, e - o - 2)]))
VuSplit(b) == VuSplitAt(b, 0, <<>>)

(***************************************************************************)
(* Generation and version of a download, and whether it is of one kind.    *)
(***************************************************************************)
VuGen(ts) == ts[1].x.gen
VuVer(ts) == IF VuGen(ts) = 1 THEN 0 ELSE IF \E i \in 1..Len(ts) : ts[i].x.gen = 2 /\ ts[i].x.ver = 2 THEN 2 ELSE 1
Fits(x, gen, ver) == x.gen = gen /\ gen # 0 /\ (gen = 1 \/ x.ver \in {0, ver})
VuUniform(ts) == Len(ts) > 0 /\ \A i \in 1..Len(ts) : Fits(ts[i].x, VuGen(ts), VuVer(ts))

(***************************************************************************)
(* Generation-1 contents.                                                  *)
(***************************************************************************)
OverviewFields == <<F("member_state_certificate", "bytes", 194), F("vu_certificate", "bytes", 194),
  F("vehicle_identification_number", "ia5", 17), Vrn("vehicle_registration_with_nation"),
  F("current_date_time", "time", 4),
  G("downloadable_period", <<F("min_time", "time", 4), F("max_time", "time", 4)>>)>>
DownloadActivityFields == <<F("downloading_time", "time", 4), F("full_card_number", "card18", 18),
  F("company_or_workshop_name", "str", 36)>>
LockFields == <<F("lock_in_time", "time", 4), F("lock_out_time", "time", 4), F("company_name", "str", 36),
  F("company_address", "str", 36), F("company_card_number", "card18", 18)>>
VuControlFields == <<F("control_type", "ctl", 1), F("control_time", "time", 4), F("control_card_number", "card18", 18),
  F("download_period_begin_time", "time", 4), F("download_period_end_time", "time", 4)>>
DayHeadFields == <<F("date_of_day", "time", 4), F("odometer_midnight_km", "u24", 3)>>
CardIwFields == <<G("card_holder_name", <<F("holder_surname", "str", 36), F("holder_first_names", "str", 36)>>),
  F("full_card_number", "card18", 18), F("card_expiry_date", "date", 4), F("card_insertion_time", "time", 4),
  F("odometer_at_insertion_km", "u24", 3), FE("card_slot_number", "enum", "slot"), F("card_withdrawal_time", "time", 4),
  F("odometer_at_withdrawal_km", "u24", 3),
  G("previous_vehicle_info", <<Vrn("vehicle_registration"), F("card_withdrawal_time", "time", 4)>>),
  F("manual_input_flag", "bool", 1)>>
VuPlaceFields == <<F("", "skip", 18), F("entry_time", "time", 4), FE("entry_type", "enum", "entry"),
  FE("country", "enum", "nation"), F("region", "bytes", 1), F("odometer_km", "u24", 3)>>
SlotNode(c) == IF Code2Num("slotcard", c) # 0 THEN V1(Code2Num("slotcard", c)) ELSE V1(1)

\* the records of a counted part at offset o
PartRecords(b, o, w, size, Node(_)) ==
  Lst(Force([i \in 1..UInt(b, o, w) |-> Node(Sub(b, o + w + (i - 1) * size, size))]))
LayoutRecords(b, o, w, fs) ==
  LET node(x) == Msg(DecAll("all", fs, x) @@ [raw_data |-> Kept(x)]) IN PartRecords(b, o, w, Width(fs), node)

Last128(b) == Sub(b, Len(b) - 128, 128)
OverviewNode(b) ==
  LET offs == PartOffsets(b, 0, Parts1("overview"), <<>>)
      slots == At(b, 432) IN
  Msg(DecAll("all", OverviewFields, b) @@
      [driver_slot_card |-> SlotNode(slots % 16), co_driver_slot_card |-> SlotNode(slots \div 16),
       download_activities |-> Lst(<<Msg(DecAll("all", DownloadActivityFields, Sub(b, 433, 58)))>>),
       company_locks |-> LayoutRecords(b, offs[2], 1, LockFields),
       control_activities |-> LayoutRecords(b, offs[3], 1, VuControlFields),
       signature |-> V(Last128(b)), raw_data |-> V(b)])
ActivitiesNode(b) ==
  LET offs == PartOffsets(b, 0, Parts1("activities"), <<>>)
      change(x) == ActivityNode(U16(x, 0)) IN
  Msg(DecAll("all", DayHeadFields, b) @@
      [card_iw_data |-> LayoutRecords(b, offs[2], 2, CardIwFields),
       activity_changes |-> PartRecords(b, offs[3], 2, 2, change),
       places |-> LayoutRecords(b, offs[4], 1, VuPlaceFields),
       specific_conditions |-> LayoutRecords(b, offs[5], 2, ConditionFields),
       signature |-> V(Last128(b)), raw_data |-> V(b)])
TransferNode(t) ==
  IF t.x.gen = 1 THEN
    (CASE t.x.what = "overview" -> OverviewNode(t.v)
       [] t.x.what = "activities" -> ActivitiesNode(t.v)
       [] OTHER -> Msg([signature |-> V(Last128(t.v)), raw_data |-> V(t.v)]))
  ELSE IF t.x.what = "download_interface_version" THEN
    Msg([raw_data |-> V(t.v),
         generation |-> IF t.v[1] \in {1, 2} THEN V1(t.v[1]) ELSE Whatever,
         version |-> IF t.v[2] \in {1, 2} THEN V1(t.v[2]) ELSE Whatever])
  ELSE Msg([raw_data |-> V(t.v)])
\* only that the transfer keeps its bytes
BytesNode(t) == Msg([raw_data |-> V(t.v)])

(***************************************************************************)
(* The whole download.                                                     *)
(***************************************************************************)
VuField(ts) == IF VuGen(ts) = 1 THEN "gen1" ELSE IF VuVer(ts) = 2 THEN "gen2_v2" ELSE "gen2_v1"
Of(ts, what) == SelectSeq(ts, LAMBDA t : t.x.what = what)
\* does any content allow the download to be rejected?
VuMayReject(ts) ==
  \E i \in 1..Len(ts) : ts[i].x.gen = 1 /\ ts[i].x.what \in {"overview", "activities"} /\ Has("r", TransferNode(ts[i]))
VuOutcome(b) ==
  LET s == VuSplit(b) IN
  IF ~s.ok \/ ~VuUniform(s.ts) THEN "err" ELSE IF VuMayReject(s.ts) THEN "either" ELSE "ok"

\* differences between the transfers of a download and their places in the view;
\* full: compare contents, otherwise only the bytes kept
VuDiff(full, ts, view) ==
  LET root == Get(view, <<"vehicle_unit">>)
      gen == Get(root, <<VuField(ts)>>)
      node(t) == IF full THEN TransferNode(t) ELSE BytesNode(t)
      \* only the bytes: look at nothing but raw_data
      thin(a) == IF full \/ a[1] # "m" THEN a
                 ELSE Msg([k \in DOMAIN a[2] \cap {"raw_data"} |-> a[2][k]])
      kinds == {"download_interface_version", "overview", "activities", "events_and_faults", "detailed_speed", "technical_data"}
      one(what) ==
        LET of == Of(ts, what) a == Get(gen, <<what>>) IN
        IF what \in Single1 THEN
           (IF Len(of) = 0 THEN (IF a[1] = "n" THEN {} ELSE {what \o " without a transfer"})
            ELSE Diff(node(of[Len(of)]), thin(a), what))
        ELSE IF Len(of) = 0 THEN (IF a[1] = "n" \/ (a[1] = "l" /\ Len(a[2]) = 0) THEN {} ELSE {what \o " without a transfer"})
        ELSE IF a[1] # "l" \/ Len(a[2]) # Len(of) THEN {what \o ": not as many as in the download"}
        ELSE UNION {Diff(node(of[i]), thin(a[2][i]), what \o "[" \o ToString(i - 1) \o "]") : i \in 1..Len(of)} IN
  UNION {one(what) : what \in kinds}
VuKindDiff(ts, view) ==
  LET root == Get(view, <<"vehicle_unit">>)
      others == {"gen1", "gen2_v1", "gen2_v2"} \ {VuField(ts)} IN
  Diff(V1(VuGen(ts)), Get(root, <<"generation">>), "generation") \cup
  (IF VuGen(ts) = 2 THEN Diff(V1(VuVer(ts)), Get(root, <<"version">>), "version") ELSE {}) \cup
  UNION {IF Get(root, <<f>>)[1] = "n" THEN {} ELSE {f \o " of another generation"} : f \in others}
====
