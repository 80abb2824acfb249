---- MODULE Export ----
(* Hands the layouts and code tables to the input generator, so that there *)
(* is one description of the formats.                                      *)
EXTENDS Values, Json
Row(i, g) == [fid |-> EfTable[i].fid, gen |-> g, ef |-> EfTable[i], lay |-> LayoutOf(EfTable[i].fid, g),
              path |-> ViewPath(<<EfTable[i].fid, g>>)]
Rows == {Row(i, g) : i \in {j \in 1..Len(EfTable) : EfTable[j].df = "both"}, g \in {1, 2}} \cup
        {Row(i, 1) : i \in {j \in 1..Len(EfTable) : EfTable[j].df = "card"}} \cup
        {Row(i, 2) : i \in {j \in 1..Len(EfTable) : EfTable[j].df \in {"g2", "g2x"}}}
ASSUME PrintT("EXPORT " \o ToJson([
  table |-> EfTable, rows |-> Rows,
  codes |-> [n \in CodeTableNames |-> CodeTable(n)],
  pages |-> [p \in {ToString(k) : k \in KnownPages} |-> 0],
  high |-> [p \in {ToString(k) : k \in KnownPages} |-> PageTable(CHOOSE k \in KnownPages : ToString(k) = p)],
  pageEnum |-> [p \in {ToString(k) : k \in KnownPages \cup {255}} |-> PageEnum(CHOOSE k \in KnownPages \cup {255} : ToString(k) = p)],
  singles |-> [appid1 |-> AppIdFields1, appid2 |-> AppIdFields2, appidv2 |-> AppIdV2Fields,
               identcard |-> IdentCardFields, identholder |-> IdentHolderFields, control |-> ControlFields, day |-> DayFields,
               vuhead |-> OverviewFields, vudownload |-> DownloadActivityFields, vulock |-> LockFields, vucontrol |-> VuControlFields,
               vuday |-> DayHeadFields, vuiw |-> CardIwFields, vuplace |-> VuPlaceFields, vucondition |-> ConditionFields],
  values |-> [k \in ValueKinds |-> ValueWidth(k)],
  valuefields |-> [k \in DOMAIN ValueLayouts |-> ValueLayouts[k].fs] @@ [k \in DOMAIN ValueFields |-> <<ValueFields[k]>>],
  transfers |-> Transfers,
  parts1 |-> [w \in {"overview", "activities", "events_and_faults", "detailed_speed", "technical_data"} |-> Parts1(w)]]))
====
