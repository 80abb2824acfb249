---- MODULE Card ----
(***************************************************************************)
(* Card downloads: the tag/length/value stream, the elementary files of a  *)
(* driver card and where each lands, and what writing a card must emit.    *)
(***************************************************************************)
EXTENDS Activity, Certs

(***************************************************************************)
(* Framing.                                                                *)
(***************************************************************************)
\* whole records only: offsets of the records, or "bad"
RECURSIVE SplitAt(_, _, _)
SplitAt(b, o, acc) ==
  IF o = Len(b) THEN [ok |-> TRUE, offs |-> acc]
  ELSE IF o + 5 > Len(b) THEN [ok |-> FALSE, offs |-> acc]
  ELSE LET n == U16(b, o + 3) IN
       IF o + 5 + n > Len(b) THEN [ok |-> FALSE, offs |-> acc]
       ELSE SplitAt(b, o + 5 + n, Append(acc, o))
Split(b) == SplitAt(b, 0, <<>>)
RecordAt(b, o) ==
  [fid |-> U16(b, o), app |-> At(b, o + 2), v |-> Sub(b, o + 5, U16(b, o + 3))]
Records(b) == LET s == Split(b) IN Force([i \in 1..Len(s.offs) |-> RecordAt(b, s.offs[i])])
Framed(b) == Split(b).ok
IsSig(r) == Bit(r.app, 0) = 1
GenOf(r) == 1 + Bit(r.app, 1)
Tag(fid, app) == fid * 256 + app
RecordBytes(fid, app, v) == B16(fid) \o <<app>> \o B16(Len(v)) \o v
Stream(recs) == Flat([i \in 1..Len(recs) |-> RecordBytes(recs[i].fid, recs[i].app, recs[i].v)])

(***************************************************************************)
(* Elementary files.                                                       *)
(*   num     number of the file kind in a raw card model                   *)
(*   driver  belongs to the driver card's file set                         *)
(*   df      "card": card level; "both": either application;               *)
(*           "g2": second-generation application only;  "-": not modelled  *)
(*   signed  may carry a signature                                         *)
(***************************************************************************)
E(fid, num, driver, df, signed) == [fid |-> fid, num |-> num, driver |-> driver, df |-> df, signed |-> signed]
EfTable == <<
  E(2,     1, TRUE,  "card", FALSE),  \* ICC
  E(5,     2, TRUE,  "card", FALSE),  \* IC
  E(12033, 4, TRUE,  "-",    FALSE),  \* ATR/INFO
  E(6,     5, TRUE,  "-",    FALSE),  \* extended length
  E(1281,  6, TRUE,  "both", TRUE),   \* application identification
  E(1282,  7, TRUE,  "both", TRUE),   \* events
  E(1283,  8, TRUE,  "both", TRUE),   \* faults
  E(1284,  9, TRUE,  "both", TRUE),   \* driver activity
  E(1285, 10, TRUE,  "both", TRUE),   \* vehicles used
  E(1286, 11, TRUE,  "both", TRUE),   \* places
  E(1287, 12, TRUE,  "both", TRUE),   \* current usage
  E(1288, 13, TRUE,  "both", TRUE),   \* control activity
  E(1289, 14, FALSE, "-",    FALSE),  \* last download (workshop)
  E(1290, 15, FALSE, "-",    FALSE),  \* calibration
  E(1291, 16, FALSE, "-",    FALSE),  \* sensor installation
  E(1292, 17, FALSE, "-",    FALSE),  \* controller activity
  E(1293, 18, TRUE,  "-",    FALSE),  \* company activity
  E(1294, 19, TRUE,  "both", FALSE),  \* last download (driver)
  E(1312, 20, TRUE,  "both", TRUE),   \* identification
  E(1313, 21, TRUE,  "both", TRUE),   \* driving licence
  E(1314, 22, TRUE,  "both", TRUE),   \* specific conditions
  E(1315, 23, TRUE,  "g2",   TRUE),   \* vehicle units used
  E(1316, 24, TRUE,  "g2",   TRUE),   \* GNSS places
  E(1317, 25, TRUE,  "g2",   TRUE),   \* application identification V2
  E(1318, 26, TRUE,  "-",    FALSE),  \* places authentication
  E(1319, 27, TRUE,  "-",    FALSE),  \* GNSS places authentication
  E(1320, 28, TRUE,  "-",    FALSE),  \* border crossings
  E(1321, 29, TRUE,  "-",    FALSE),  \* load/unload
  E(1328, 30, TRUE,  "-",    FALSE),  \* load types
  E(1329, 31, FALSE, "-",    FALSE),  \* calibration additional data
  E(1344, 32, TRUE,  "-",    FALSE),  \* VU configuration
  E(12032, 33, TRUE, "-",    FALSE),  \* DIR
  E(49408, 34, TRUE, "both", FALSE),  \* card certificate / mutual authentication certificate
  E(49409, 36, TRUE, "g2x",  FALSE),  \* card sign certificate
  E(49416, 37, TRUE, "both", FALSE),  \* CA certificate
  E(49417, 38, TRUE, "g2x",  FALSE),  \* link certificate
  E(12079, 39, FALSE, "-",   FALSE),  \* EGF
  E(12080, 40, FALSE, "-",   FALSE)   \* VU
>>
EfIndex(fid) == IF \E i \in 1..Len(EfTable) : EfTable[i].fid = fid
                THEN CHOOSE i \in 1..Len(EfTable) : EfTable[i].fid = fid ELSE 0
KnownFid(fid) == EfIndex(fid) # 0
EfOf(fid) == EfTable[EfIndex(fid)]
EfNum(fid) == IF KnownFid(fid) THEN EfOf(fid).num ELSE 0
InDriverSet(fid) == KnownFid(fid) /\ EfOf(fid).driver
Modelled(fid) == KnownFid(fid) /\ EfOf(fid).df # "-"

IsCardDownload(b) == Len(b) >= 2 /\ b[1] = 0 /\ b[2] = 2
IsVuDownload(b) == Len(b) >= 2 /\ b[1] = 118
\* "driver", "raw" or, when there is no data record at all, either
CardKind(recs) ==
  LET data == {i \in 1..Len(recs) : ~IsSig(recs[i])} IN
  IF data = {} THEN "either"
  ELSE IF \A i \in data : InDriverSet(recs[i].fid) THEN "driver" ELSE "raw"

RawRecordNode(r) ==
  Msg([tag |-> V1(Tag(r.fid, r.app)), length |-> V1(Len(r.v)),
       value |-> IF Len(r.v) = 0 THEN OneOf(<<V(<<>>), None>>) ELSE V(r.v),
       file |-> IF EfNum(r.fid) = 0 THEN OneOf(<<V1(0), None>>) ELSE V1(EfNum(r.fid)),
       content_type |-> V1(IF IsSig(r) THEN 2 ELSE 1), generation |-> V1(GenOf(r))])
RawCardNode(recs) == Msg([records |-> Lst(Force([i \in 1..Len(recs) |-> RawRecordNode(recs[i])]))])

(***************************************************************************)
(* Layouts of the modelled files.                                          *)
(***************************************************************************)
Vrn(n) == G(n, <<FE("nation", "enum", "nation"), F("number", "str", 14)>>)
IccFields == <<FE("clock_stop", "enum", "clock"),
  G("card_extended_serial_number", <<F("serial_number", "u32", 4), F("month_year", "my", 2),
     FE("type", "enum", "equip"), F("manufacturer_code", "u8", 1)>>),
  F("card_approval_number", "ia5", 8), F("card_personaliser_id", "u8", 1),
  G("embedder_ic_assembler_id", <<F("country_code", "ia5", 2), F("module_embedder", "ia5", 2),
     F("manufacturer_information", "u8", 1)>>),
  F("ic_identifier", "bytes", 2)>>
IcFields == <<F("ic_serial_number", "bytes", 4), F("ic_manufacturing_references", "bytes", 4)>>
AppIdFields1 == <<FE("type_of_tachograph_card_id", "enum", "equip"), F("card_structure_version", "csv", 2),
  F("events_per_type_count", "u8", 1), F("faults_per_type_count", "u8", 1),
  F("activity_structure_length", "u16", 2), F("card_vehicle_records_count", "u16", 2),
  F("card_place_records_count", "u8", 1)>>
AppIdFields2 == SubSeq(AppIdFields1, 1, 6) \o <<F("card_place_records_count", "u16", 2),
  F("gnss_ad_records_count", "u16", 2), F("specific_condition_records_count", "u16", 2),
  F("card_vehicle_unit_records_count", "u16", 2)>>
AppIdV2Fields == <<F("length_of_following_data", "u16", 2), F("border_crossing_records_count", "u16", 2),
  F("load_unload_records_count", "u16", 2), F("load_type_entry_records_count", "u16", 2),
  F("vu_configuration_length_range", "u16", 2)>>
IdentCardFields == <<FE("card_issuing_member_state", "enum", "nation"), F("", "card16", 16),
  F("card_issuing_authority_name", "str", 36), F("card_issue_date", "time", 4),
  F("card_validity_begin", "time", 4), F("card_expiry_date", "time", 4)>>
IdentHolderFields == <<F("card_holder_surname", "str", 36), F("card_holder_first_names", "str", 36),
  F("card_holder_birth_date", "date", 4), F("card_holder_preferred_language", "ia5", 2)>>
LicenceFields == <<F("driving_licence_issuing_authority", "str", 36),
  FE("driving_licence_issuing_nation", "enum", "nation"), F("driving_licence_number", "ia5", 16)>>
UsageFields == <<F("session_open_time", "time", 4), Vrn("session_open_vehicle")>>
DownloadFields == <<F("timestamp", "time", 4)>>
ControlFields == <<F("control_type", "ctl", 1), F("control_time", "time", 4), F("control_card_number", "card18g", 18),
  Vrn("control_vehicle_registration"), F("control_download_period_begin", "time", 4),
  F("control_download_period_end", "time", 4)>>
EventFields(p) == <<FE(p \o "_type", "enum", "event"), F(p \o "_begin_time", "time", 4),
  F(p \o "_end_time", "time", 4), Vrn(p \o "_vehicle_registration")>>
VehicleFields1 == <<F("vehicle_odometer_begin_km", "u24", 3), F("vehicle_odometer_end_km", "u24", 3),
  F("vehicle_first_use", "time", 4), F("vehicle_last_use", "time", 4), Vrn("vehicle_registration"),
  F("vu_data_block_counter", "bcd", 2)>>
VehicleFields2 == VehicleFields1 \o <<F("vehicle_identification_number", "vin", 17)>>
PlaceFields1 == <<F("entry_time", "time", 4), FE("entry_type_daily_work_period", "enumu", "entry"),
  FE("daily_work_period_country", "enumu", "nation"), F("daily_work_period_region", "bytes", 1),
  F("vehicle_odometer_km", "u24", 3)>>
GnssPlaceFields == <<F("timestamp", "time", 4), F("gnss_accuracy", "u8", 1),
  G("geo_coordinates", <<F("latitude", "s24", 3), F("longitude", "s24", 3)>>)>>
PlaceFields2 == PlaceFields1 \o <<G("entry_gnss_place_record", GnssPlaceFields)>>
ConditionFields == <<F("entry_time", "time", 4), FE("specific_condition_type", "enumu", "cond")>>
VuUsedFields == <<F("timestamp", "time", 4), F("manufacturer_code", "u8", 1), F("device_id", "u8", 1),
  F("vu_software_version", "bytes", 4)>>
GnssFields == <<F("timestamp", "time", 4), G("gnss_place_record", GnssPlaceFields), F("vehicle_odometer_km", "u24", 3)>>

(* A file's layout: [kind, field, fs] for single records,                  *)
(* [kind, field, head, list, rec] for tables.                              *)
Single(field, fs) == [kind |-> "single", field |-> field, size |-> Width(fs), head |-> <<>>, list |-> "", rec |-> fs]
Table(field, head, list, rec) == [kind |-> "table", field |-> field, size |-> 0, head |-> head, list |-> list, rec |-> rec]
Special(kind, field, size) == [kind |-> kind, field |-> field, size |-> size, head |-> <<>>, list |-> "", rec |-> <<>>]
Ptr(n, w) == <<F(n, IF w = 1 THEN "u8" ELSE "u16", w)>>
LayoutOf(fid, gen) ==
  CASE fid = 2 -> Single("icc", IccFields)
    [] fid = 5 -> Single("ic", IcFields)
    [] fid = 1281 -> Special("appid", "application_identification", IF gen = 1 THEN 10 ELSE 17)
    [] fid = 1282 -> Table("events_data", <<>>, "events", EventFields("event"))
    [] fid = 1283 -> Table("faults_data", <<>>, "faults", EventFields("fault"))
    [] fid = 1284 -> Special("activity", "driver_activity_data", 0)
    [] fid = 1285 -> Table("vehicles_used", Ptr("newest_record_index", 2), "records",
                           IF gen = 1 THEN VehicleFields1 ELSE VehicleFields2)
    [] fid = 1286 -> Table("places", Ptr("newest_record_index", gen), "records",
                           IF gen = 1 THEN PlaceFields1 ELSE PlaceFields2)
    [] fid = 1287 -> Single("current_usage", UsageFields)
    [] fid = 1288 -> Special("control", "control_activity_data", 46)
    [] fid = 1294 -> Single("card_download", DownloadFields)
    [] fid = 1312 -> Special("ident", "identification", 143)
    [] fid = 1313 -> Single("driving_licence_info", LicenceFields)
    [] fid = 1314 -> Table("specific_conditions", IF gen = 1 THEN <<>> ELSE Ptr("newest_record_index", 2), "records", ConditionFields)
    [] fid = 1315 -> Table("vehicle_units_used", Ptr("vehicle_unit_pointer_newest_record", 2), "records", VuUsedFields)
    [] fid = 1316 -> Table("gnss_places", Ptr("newest_record_index", 2), "records", GnssFields)
    [] fid = 1317 -> Special("appidv2", "application_identification_v2", 10)
    [] fid = 49408 -> Special("cert", IF gen = 1 THEN "card_certificate" ELSE "card_ma_certificate", 0)
    [] fid = 49409 -> Special("cert", "card_sign_certificate", 0)
    [] fid = 49416 -> Special("cert", "ca_certificate", 0)
    [] fid = 49417 -> Special("cert", "link_certificate", 0)

(***************************************************************************)
(* What the bytes of one elementary file mean.                             *)
(***************************************************************************)
AppIdNode(fo, gen, b) ==
  LET d == DecAll(fo, IF gen = 1 THEN AppIdFields1 ELSE AppIdFields2, b)
      top == {"type_of_tachograph_card_id", "card_structure_version"} IN
  Msg([k \in top |-> d[k]] @@
      [driver |-> Msg([k \in DOMAIN d \ top |-> d[k]]), card_type |-> Whatever])
AppIdV2Node(fo, b) == Msg([driver |-> Msg(DecAll(fo, AppIdV2Fields, b)), card_type |-> Whatever])

Card16Node(fo, b) ==
  IF IsIndex(b[15]) /\ IsIndex(b[16]) THEN [driver_identification |-> DriverNumber(fo, b)]
  ELSE [owner_identification |-> OwnerNumber(fo, b)]
IdentNode(fo, b) ==
  LET c == DecAll(fo, SubSeq(IdentCardFields, 1, 1), b) @@ Card16Node(fo, Sub(b, 1, 16))
           @@ DecAll(fo, SubSeq(IdentCardFields, 3, 6), Sub(b, 17, 48)) IN
  Msg([card |-> Msg(c), driver_card_holder |-> Msg(DecAll(fo, IdentHolderFields, Sub(b, 65, 78))),
       card_type |-> Whatever])
ControlNodeOf(fo, b) ==
  IF Sub(b, 1, 4) = <<0, 0, 0, 0>> \/ ~FullCardOk(Sub(b, 5, 18))
  THEN Msg([valid |-> OneOf(<<V1(0), None>>), raw_data |-> V(b)])
  ELSE Msg(DecAll(fo, ControlFields, b) @@ [valid |-> V1(1)])

RecordNode(fo, fid, rec, b) ==
  IF fid \in {1282, 1283} THEN
    (IF Sub(b, 1, 4) = <<0, 0, 0, 0>> THEN Msg([valid |-> OneOf(<<V1(0), None>>), raw_data |-> V(b)])
     ELSE Msg(DecAll(fo, rec, b) @@ [valid |-> V1(1)]))
  ELSE Msg(DecAll(fo, rec, b) @@ [valid |-> Whatever])

TableLen(lay, b) == Len(b) >= Width(lay.head) /\ (Len(b) - Width(lay.head)) % Width(lay.rec) = 0
TableNode(fo, fid, lay, b) ==
  LET h == Width(lay.head) w == Width(lay.rec) n == (Len(b) - h) \div w IN
  Msg(DecAll(fo, lay.head, b) @@
      Fields(<<<<lay.list, Lst(Force([i \in 1..n |-> RecordNode(fo, fid, lay.rec, Sub(b, h + (i - 1) * w, w))]))>>>>))

\* a card shows its certificates, each in its own kind of message
CertFileNode(gen, b) ==
  IF gen = 1 THEN (IF Len(b) = 194 THEN Msg([rsa_certificate |-> RsaNode(b)]) ELSE Whatever)
  ELSE IF EccOk(b) THEN Msg([ecc_certificate |-> EccNode(b)]) ELSE Whatever
EfNode(fo, fid, gen, b) ==
  LET lay == LayoutOf(fid, gen) IN
  CASE lay.kind = "single" -> Msg(DecAll(fo, lay.rec, b))
    [] lay.kind = "appid" -> AppIdNode(fo, gen, b)
    [] lay.kind = "appidv2" -> AppIdV2Node(fo, b)
    [] lay.kind = "ident" -> IdentNode(fo, b)
    [] lay.kind = "control" -> ControlNodeOf(fo, b)
    [] lay.kind = "table" -> TableNode(fo, fid, lay, b)
    [] lay.kind = "cert" -> IF fo # "all" THEN Whatever ELSE CertFileNode(gen, b)
    [] lay.kind = "activity" -> ActNode(fo, b, ActDays(fo, b))
\* the file has a length its layout allows
EfLen(fid, gen, b) ==
  LET lay == LayoutOf(fid, gen) IN
  CASE lay.kind = "table" -> TableLen(lay, b)
    [] lay.kind = "activity" -> Len(b) >= 4
    [] lay.kind = "cert" -> IF gen = 1 THEN Len(b) = 194 ELSE EccSize(b)
    [] OTHER -> Len(b) = lay.size

(***************************************************************************)
(* Assembly: records of a download -> contents of the card.                *)
(* A card is a function from places <<fid, generation>> to                 *)
(* [v |-> bytes, sig |-> <<>> or <<signature>>].                           *)
(***************************************************************************)
PlaceOf(r) ==
  LET df == EfOf(r.fid).df IN
  IF df = "card" THEN <<r.fid, 1>> ELSE IF df \in {"g2", "g2x"} THEN <<r.fid, 2>> ELSE <<r.fid, GenOf(r)>>
\* signature record s directly following data record r belongs to it
SigOf(r, s) == IsSig(s) /\ s.fid = r.fid /\ GenOf(s) = GenOf(r)

\* one step of reading: the card so far and the next record (with the record
\* after it, if any) -> the card, how many records were used, and whether the
\* download is still readable
Step(card, recs, i) ==
  LET r == recs[i]
      has == i < Len(recs) /\ SigOf(r, recs[i + 1])
      used == IF has THEN 2 ELSE 1
      entry == [v |-> r.v, sig |-> IF has THEN <<recs[i + 1].v>> ELSE <<>>] IN
  IF IsSig(r) THEN [ok |-> FALSE, used |-> 1, card |-> card]
  ELSE IF ~Modelled(r.fid) THEN [ok |-> TRUE, used |-> used, card |-> card]
  ELSE IF has /\ ~EfOf(r.fid).signed THEN [ok |-> FALSE, used |-> used, card |-> card]
  ELSE IF EfOf(r.fid).df = "g2x" /\ GenOf(r) = 1 THEN [ok |-> FALSE, used |-> used, card |-> card]
  ELSE [ok |-> TRUE, used |-> used, card |-> (PlaceOf(r) :> entry) @@ card]

NoCard == [p \in {} |-> 0]
RECURSIVE AssembleFrom(_, _, _)
AssembleFrom(card, recs, i) ==
  IF i > Len(recs) THEN [ok |-> TRUE, card |-> card]
  ELSE LET s == Step(card, recs, i) IN
       IF ~s.ok THEN [ok |-> FALSE, card |-> s.card] ELSE AssembleFrom(s.card, recs, i + s.used)
Assemble(recs) == AssembleFrom(NoCard, recs, 1)

\* where a place shows in the view
ViewPath(p) ==
  LET f == LayoutOf(p[1], p[2]).field IN
  IF p[1] \in {2, 5} THEN <<"driver_card", f>>
  ELSE IF p[2] = 1 THEN <<"driver_card", "tachograph", f>>
  ELSE <<"driver_card", "tachograph_g2", f>>
Path2(p) == LET v == ViewPath(p) IN IF Len(v) = 2 THEN v[2] ELSE v[2] \o "." \o v[3]

\* every place the model has
Places == {<<2, 1>>, <<5, 1>>} \cup
  {<<EfTable[i].fid, g>> : i \in {j \in 1..Len(EfTable) : EfTable[j].df = "both"}, g \in {1, 2}} \cup
  {<<EfTable[i].fid, 2>> : i \in {j \in 1..Len(EfTable) : EfTable[j].df \in {"g2", "g2x"}}}

(***************************************************************************)
(* Writing: the output must consist of one data record per place, each     *)
(* directly followed by its signature if it has one.  The order of the     *)
(* places is not prescribed.                                               *)
(***************************************************************************)
AppOf(p) == IF p[2] = 2 THEN 2 ELSE 0
RECURSIVE ReadBack(_, _, _)
\* output records -> card, noting anything that should not be there
ReadBack(recs, i, acc) ==
  IF i > Len(recs) THEN acc
  ELSE LET r == recs[i] IN
       IF IsSig(r) THEN [acc EXCEPT !.bad = @ \cup {"stray signature " \o ToString(r.fid) \o "/" \o ToString(r.app)}]
       ELSE IF ~Modelled(r.fid) \/ r.app \notin {0, 2} \/ PlaceOf(r) # <<r.fid, GenOf(r)>>
       THEN [acc EXCEPT !.bad = @ \cup {"record " \o ToString(r.fid) \o "/" \o ToString(r.app) \o " of no place"}]
       ELSE LET has == i < Len(recs) /\ SigOf(r, recs[i + 1])
                e == [v |-> r.v, sig |-> IF has THEN <<recs[i + 1].v>> ELSE <<>>]
                dup == PlaceOf(r) \in DOMAIN acc.card
                acc2 == [card |-> (PlaceOf(r) :> e) @@ acc.card,
                         bad |-> acc.bad \cup (IF dup THEN {"written twice: " \o Path2(PlaceOf(r))} ELSE {})] IN
            ReadBack(recs, i + (IF has THEN 2 ELSE 1), acc2)
Written(b) == ReadBack(Records(b), 1, [card |-> NoCard, bad |-> {}])
====
