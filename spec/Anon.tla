---- MODULE Anon ----
(***************************************************************************)
(* Anonymised copies (C21).  Whatever identifies a person is replaced by   *)
(* something that says nothing about it: two cards that differ only in     *)
(* such values have the same anonymised copy, in the model and in the      *)
(* bytes written from it.  Everything structural stays.                    *)
(***************************************************************************)
EXTENDS Encode

\* what an anonymised copy must keep, whatever it is
Structural == {"newest_record_index", "entry_type_daily_work_period", "unrecognized_entry_type_daily_work_period",
               "vu_data_block_counter", "nation", "gnss_accuracy", "card_holder_preferred_language", "card_type",
               "card_issuing_member_state", "consecutive_index", "replacement_index", "renewal_index"}
\* distances are kept in whole hundreds or thousands of kilometres
Coarse == ("vehicle_odometer_km" :> 100) @@ ("vehicle_odometer_begin_km" :> 1000) @@ ("vehicle_odometer_end_km" :> 1000)
\* parts that are there in the original are there in the copy
Parts == {"identification", "places", "vehicles_used", "card", "driver_card_holder", "driver_identification", "owner_identification",
          "entry_gnss_place_record", "vehicle_registration", "records"}
Number(n) == IF n[1] # "v" THEN 0 ELSE IF Len(n[2]) = 1 THEN n[2][1] ELSE n[2][1] * 65536 + n[2][2]
\* every difference, remembered bytes included
RECURSIVE Differ(_, _, _)
Differ(x, y, p) ==
  IF x[1] # y[1] THEN {p}
  ELSE CASE x[1] = "v" -> IF x[2] = y[2] THEN {} ELSE {p}
         [] x[1] = "l" -> IF Len(x[2]) # Len(y[2]) THEN {p \o "#"}
                          ELSE UNION {Differ(x[2][i], y[2][i], p \o "[" \o ToString(i - 1) \o "]") : i \in 1..Len(x[2])}
         [] x[1] = "m" -> UNION {Differ(FieldOf(x, k), FieldOf(y, k), p \o "." \o k) : k \in DOMAIN x[2] \cup DOMAIN y[2]}
         [] OTHER -> {}
RECURSIVE Unfaithful(_, _, _)
Unfaithful(o, c, p) ==
  IF o[1] = "l" /\ c[1] = "l" THEN
     IF Len(o[2]) # Len(c[2]) THEN {p \o ": " \o ToString(Len(c[2])) \o " of " \o ToString(Len(o[2])) \o " records"}
     ELSE UNION {Unfaithful(o[2][i], c[2][i], p \o "[" \o ToString(i - 1) \o "]") : i \in 1..Len(o[2])}
  ELSE IF o[1] = "m" /\ c[1] = "m" THEN
     UNION {LET q == p \o "." \o k x == FieldOf(o, k) y == FieldOf(c, k) IN
            IF k \in Structural THEN (IF Default(x) /\ Default(y) THEN {}
                                      ELSE {z \o " is not kept" : z \in Differ(x, y, q)})
            ELSE IF k \in DOMAIN Coarse THEN
              (IF Number(y) = (Number(x) \div Coarse[k]) * Coarse[k] THEN {} ELSE {q \o " is not rounded down"})
            ELSE (IF k \in Parts /\ (x[1] = "n") # (y[1] = "n") THEN {q \o (IF x[1] = "n" THEN " was not there" ELSE " is gone")} ELSE {}) \cup
                 Unfaithful(x, y, q)
            : k \in NamesOf(o) \cup NamesOf(c)}
  ELSE {}

Contains(b, s) == \E i \in 0..Len(b) - Len(s) : b[i + 1] = s[1] /\ SubSeq(b, i + 1, i + Len(s)) = s
RECURSIVE Leaks(_, _, _)
Leaks(n, s, p) ==
  CASE n[1] = "v" -> IF Contains(n[2], s) THEN {p} ELSE {}
    [] n[1] = "l" -> UNION {Leaks(n[2][i], s, p \o "[" \o ToString(i - 1) \o "]") : i \in 1..Len(n[2])}
    [] n[1] = "m" -> UNION {Leaks(n[2][k], s, p \o "." \o k) : k \in DOMAIN n[2]}
    [] OTHER -> {}

Secrets(e) == IF "secret" \in DOMAIN e THEN e.secret ELSE <<>>
Copy(e) == <<e.view, [i \in 1..Len(e.acts) |-> e.acts[i][2]]>>
JAnonymise(m, e) ==
  IF e.out # "ok" THEN {"anonymising: " \o e.out}
  ELSE (IF e.same THEN {} ELSE {"anonymising changed the original"}) \cup
       (IF e.twice THEN {} ELSE {"anonymising twice gives two results"}) \cup
       Unfaithful(m.seen[1], e.view, "") \cup
       UNION {Unfaithful(e.acts[i][1], e.acts[i][2], "activity") \cup
              UNION {IF FieldOf(e.acts[i][1], k) = FieldOf(e.acts[i][2], k) THEN {} ELSE {"activity: " \o k \o " is not kept"}
                     : k \in {"slot", "crew", "inserted", "activity"}} : i \in 1..Len(e.acts)} \cup
       UNION {{"personal data in " \o x : x \in Leaks(e.view, Secrets(e)[i], "")} : i \in 1..Len(Secrets(e))} \cup
       LET k == <<"pair", e.pair>> IN
       IF "pair" \in DOMAIN e /\ k \in DOMAIN learned THEN
         {"depends on personal data: " \o x : x \in Differ(learned[k][1], e.view, "")} \cup
         (IF learned[k][2] = Copy(e)[2] THEN {} ELSE {"depends on personal data: activity"})
       ELSE IF "changes" \in DOMAIN e /\ <<"changes", e.changes>> \in DOMAIN learned
               /\ learned[<<"changes", e.changes>>] # Copy(e)[2] THEN {"depends on personal data: the minutes of activity changes"}
       ELSE {}

Anonymise(f, g, e) ==
  IF e.out # "ok" THEN files' = Without(files, g) /\ UNCHANGED <<bufs, learned>>
  ELSE /\ files' = (g :> ([secret |-> Secrets(e), pair |-> IF "pair" \in DOMAIN e THEN e.pair ELSE "", tidy |-> "tidy" \in DOMAIN e]
                          @@ [Lost(files[f]) EXCEPT !.seen = <<e.view>>])) @@ files
       /\ learned' = IF "pair" \in DOMAIN e /\ <<"pair", e.pair>> \notin DOMAIN learned THEN (<<"pair", e.pair>> :> Copy(e)) @@ learned
                      ELSE IF "changes" \in DOMAIN e /\ <<"changes", e.changes>> \notin DOMAIN learned
                           THEN (<<"changes", e.changes>> :> Copy(e)[2]) @@ learned
                      ELSE learned
       /\ UNCHANGED bufs

\* a file the caller makes by hand
NewFile(f) ==
  /\ files' = (f :> [kind |-> "none", src |-> <<>>, recs |-> <<>>, card |-> NoCard, seen |-> <<>>, wrote |-> <<>>, edited |-> TRUE, canon |-> FALSE]) @@ files
  /\ UNCHANGED <<bufs, learned>>

IsCopy(m) == "secret" \in DOMAIN m
JAnonMarshal(m, e) ==
  IF ~IsCopy(m) THEN {}
  ELSE (IF m.tidy /\ e.out # "ok" THEN {"the anonymised file cannot be written: " \o e.out} ELSE {}) \cup
       (IF e.out = "ok" /\ \E i \in 1..Len(m.secret) : Contains(e.data, m.secret[i]) THEN {"personal data in the written file"} ELSE {}) \cup
       LET k == <<"written", m.pair>> IN
       IF m.pair # "" /\ k \in DOMAIN learned /\ learned[k] # <<e.out, e.data>> THEN {"the written file depends on personal data"} ELSE {}
AnonMarshal(f, e) ==
  LET m == files[f] k == <<"written", m.pair>> IN
  /\ bufs' = IF "b" \notin DOMAIN e THEN bufs
             ELSE IF e.out = "ok" THEN (e.b :> [data |-> e.data, canon |-> FALSE, claim |-> Claim(m)]) @@ bufs
             ELSE Without(bufs, e.b)
  /\ learned' = IF m.pair # "" /\ k \notin DOMAIN learned THEN (k :> <<e.out, e.data>>) @@ learned ELSE learned
  /\ UNCHANGED files

JAnon(e) ==
  CASE e.out \in {"panic", "crash", "hang"} -> {e.op \o ": " \o e.out}
    [] e.op = "anon" -> JAnonymise(files[e.f], e)
    [] e.op = "marshal" -> JAnonMarshal(files[e.f], e)
    [] e.op = "view" -> IF files[e.f].seen # <<>> /\ files[e.f].seen[1] # e.view THEN {"the original changed"} ELSE {}
    [] e.op = "parse" ->
         IF bufs[e.b].claim = <<>> \/ bufs[e.b].claim[1].how # "view" THEN {}
         ELSE IF e.out # "ok" THEN {"the anonymised file cannot be read back"}
         ELSE {"reads back as something else: " \o x : x \in Agree(bufs[e.b].claim[1].view, e.view, "")}
    [] OTHER -> {}
====
