---- MODULE Values ----
(***************************************************************************)
(* Single values of the data dictionary, read and written one at a time:   *)
(* also those that no elementary file of a driver card contains.           *)
(***************************************************************************)
EXTENDS Vu

Bare(fs) == [fs |-> fs, w |-> Width(fs)]
ValueLayouts == [
  VehicleRegistration |-> Bare(<<FE("nation", "enum", "nation"), F("number", "str", 14)>>),
  HolderName |-> Bare(<<F("holder_surname", "str", 36), F("holder_first_names", "str", 36)>>),
  ExtendedSerialNumber |-> Bare(<<F("serial_number", "u32", 4), F("month_year", "my", 2),
     FE("type", "enum", "equip"), F("manufacturer_code", "u8", 1)>>),
  FullCardNumberAndGeneration |-> Bare(<<F("full_card_number", "card18", 18), FE("generation", "enum", "gen")>>),
  PreviousVehicleInfo |-> Bare(<<Vrn("vehicle_registration"), F("card_withdrawal_time", "time", 4)>>),
  PreviousVehicleInfoG2 |-> Bare(<<Vrn("vehicle_registration"), F("card_withdrawal_time", "time", 4), FE("vu_generation", "enum", "gen")>>),
  SpecificConditionRecord |-> Bare(ConditionFields),
  PlaceRecord |-> Bare(PlaceFields1),
  PlaceRecordG2 |-> Bare(PlaceFields2),
  GNSSPlaceRecord |-> Bare(GnssPlaceFields),
  GNSSPlaceAuthRecord |-> Bare(GnssPlaceFields \o <<FE("authentication_status", "enumu", "auth")>>),
  GeoCoordinates |-> Bare(<<F("latitude", "s24", 3), F("longitude", "s24", 3)>>),
  CardVehicleRecord |-> Bare(VehicleFields1),
  CardVehicleRecordG2 |-> Bare(VehicleFields2),
  VuCardIWRecord |-> Bare(CardIwFields)]
\* values that are one field
ValueFields == [
  Date |-> F("", "date", 4), TimeReal |-> F("", "time", 4), MonthYear |-> F("", "my", 2),
  CardStructureVersion |-> F("", "csv", 2), ControlType |-> F("", "ctl", 1), Odometer |-> F("", "u24", 3),
  FullCardNumber |-> F("", "card18", 18)]
\* ... and those of any length, and of a shape of their own
LooseKinds == {"Ia5StringValue", "StringValue", "BcdString"}
OwnKinds == [ActivityChangeInfo |-> 2, DriverIdentification |-> 14, OwnerIdentification |-> 16]
ValueKinds == DOMAIN ValueLayouts \cup DOMAIN ValueFields \cup DOMAIN OwnKinds \cup LooseKinds

ValueWidth(k) ==
  IF k \in DOMAIN ValueLayouts THEN ValueLayouts[k].w
  ELSE IF k \in DOMAIN ValueFields THEN ValueFields[k].w
  ELSE IF k \in DOMAIN OwnKinds THEN OwnKinds[k] ELSE -1
\* the length is one the kind can have
LengthOk(k, n) == IF k \in LooseKinds THEN n > 1 ELSE n = ValueWidth(k)
ValueNode(k, b) ==
  IF k \in DOMAIN ValueLayouts THEN Msg([raw_data |-> Kept(b)] @@ DecAll("all", ValueLayouts[k].fs, b))
  ELSE IF k \in DOMAIN ValueFields THEN Dec("all", ValueFields[k], b)
  ELSE CASE k = "Ia5StringValue" -> Ia5Node(b)
         [] k = "StringValue" -> StrNode(b)
         [] k = "BcdString" -> IF Len(b) > 4 THEN Whatever ELSE IF BcdOk(b) THEN Msg([value |-> V1(Bcd(b)), raw_data |-> Kept(b)]) ELSE MayReject(<<Whatever>>)
         [] k = "ActivityChangeInfo" -> ActivityNode(U16(b, 0))
         [] k = "DriverIdentification" -> Msg([driver_identification_number |-> Ia5Node(b)])
         [] k = "OwnerIdentification" -> OwnerNumber("all", b)

(***************************************************************************)
(* Reading gives the value of the bytes or, where the bytes stand for no   *)
(* value, an error; writing the value appends the same bytes to what was   *)
(* there.  A value that remembers nothing is written as bytes that mean    *)
(* the same.                                                               *)
(***************************************************************************)
\* a code page outside the table is remembered in the bytes only
Ends(x, y) == Len(x) >= Len(y) /\ SubSeq(x, Len(x) - Len(y) + 1, Len(x)) = y
Open(k, n) == Has("r", n)
JValue(e) ==
  LET b == e.data n == ValueNode(e.kind, b) IN
  (IF e.out \notin {"ok", "err"} THEN {e.kind \o ": " \o e.out}
   ELSE IF ~e.same THEN {e.kind \o ": reading changed the bytes"} ELSE {}) \cup
  (IF ~LengthOk(e.kind, Len(b)) THEN
     (IF e.kind \in LooseKinds \/ e.out # "ok" \/ (e.kind = "ControlType" /\ Len(b) > 1) THEN {} ELSE {e.kind \o ": accepted with " \o ToString(Len(b)) \o " bytes"})
   ELSE IF e.out = "err" THEN (IF Open(e.kind, n) THEN {} ELSE {e.kind \o ": must be accepted"})
   ELSE IF e.out # "ok" THEN {}
   ELSE Diff(n, e.view, e.kind) \cup
     (IF e.kept THEN {} ELSE {e.kind \o ": writing changed the value"}) \cup
     (IF e.wout = "ok" THEN (IF e.wrote = e.pre \o b THEN {} ELSE {e.kind \o ": written as other bytes"})
      ELSE IF e.wout = "err" /\ Open(e.kind, n) THEN {} ELSE {e.kind \o ": cannot be written: " \o e.wout}) \cup
     (IF e.wout2 = "err" /\ (Open(e.kind, n) \/ e.wout = "ok") THEN {}
      ELSE IF e.wout2 # "ok" THEN {e.kind \o ": writing from the value alone: " \o e.wout2}
      ELSE LET w == SubSeq(e.wrote2, Len(e.pre) + 1, Len(e.wrote2)) IN
           IF SubSeq(e.wrote2, 1, Len(e.pre)) # e.pre THEN {e.kind \o ": what was there before changed"}
           ELSE IF e.kind \in LooseKinds THEN {}
           ELSE IF Len(w) # Len(b) THEN {e.kind \o ": written with another length"}
           ELSE IF Open(e.kind, n) THEN {}
           ELSE {"from the value alone: " \o x : x \in {y \in Diff(ValueNode(e.kind, w), e.view2, e.kind) : ~Ends(y, ".encoding")}}))

(***************************************************************************)
(* A text set by the caller: written in its code page, character by        *)
(* character, filled up to its length; or rejected.                        *)
(***************************************************************************)
\* where the versions of KOI8-U differ
Unsettled(page) == IF page = 85 THEN {1038, 1118, 9565, 9580} ELSE {}
CanHold(tab, t) == \A i \in 1..Len(t) : t[i] \in 0..127 \/ t[i] \in Range(tab) \ {-1}
Plain(t) == \A i \in 1..Len(t) : t[i] >= 32 /\ t[i] \notin 127..160
JSetText(e) ==
  LET ia5 == e.kind = "Ia5StringValue"
      page == IF ia5 THEN 0 ELSE IF e.enc \in {0, 1} THEN 255 ELSE EnumPage(e.enc)
      tab == IF ia5 THEN <<>> ELSE PageTable(page)
      fixed == "length" \in DOMAIN e
      odd == Range(e.text) \cap Unsettled(page) # {}
      fits == ~fixed \/ (e.length \in 0..255 /\ Len(e.text) <= e.length)
      holds == IF page = 255 THEN e.text = <<>> ELSE page \in KnownPages /\ CanHold(tab, e.text)
      head == IF ia5 THEN 0 ELSE 1
      w == SubSeq(e.wrote, Len(e.pre) + 1, Len(e.wrote))
      body == SubSeq(w, head + 1, Len(w))
      n == Len(e.text) IN
  (IF e.kept THEN {} ELSE {"writing changed the text"}) \cup
  (IF e.out = "err" THEN (IF ~odd /\ holds /\ fits /\ Plain(e.text) /\ (fixed \/ (~ia5 /\ page # 255)) THEN {"a text its code page has is rejected"} ELSE {})
   ELSE IF e.out # "ok" THEN {"text: " \o e.out}
   ELSE IF SubSeq(e.wrote, 1, Len(e.pre)) # e.pre THEN {"what was there before changed"}
   ELSE IF ~fits THEN {"a text longer than its field is written"}
   ELSE IF ~odd /\ ~holds THEN {"a text its code page does not have is written"}
   ELSE IF Len(w) # head + (IF fixed THEN e.length ELSE n) THEN {"text written with another length"}
   ELSE IF head = 1 /\ w[1] # page THEN {"text written under another code page"}
   ELSE IF page # 255 /\ \E i \in 1..n : CharOf(tab, body[i]) # e.text[i] /\ ~(e.text[i] \in Unsettled(page) /\ CharOf(tab, body[i]) = -1) THEN {"text written as other characters"}
   ELSE IF \E i \in n + 1..Len(body) : body[i] \notin {0, 32} THEN {"text not filled up with blanks"}
   ELSE {})
====
