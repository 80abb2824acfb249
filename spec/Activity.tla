---- MODULE Activity ----
(***************************************************************************)
(* The driver activity file: two pointers and a ring of daily records,     *)
(* each naming the length of the one before it.                            *)
(***************************************************************************)
EXTENDS Codec

\* n bytes of ring r from position p, going round its end
Ring(r, p, n) == [i \in 1..n |-> r[((p + i - 1) % Len(r)) + 1]]
RingU16(r, p) == r[(p % Len(r)) + 1] * 256 + r[((p + 1) % Len(r)) + 1]

(* Links(r, p): the records met by following the backward links from       *)
(* position p: a sequence of <<position, length>>, newest first, and how   *)
(* the walk ends:                                                          *)
(*   "end"   the last record says that it is the oldest                    *)
(*   "zero"  the link leads to a record of length zero                     *)
(*   "bad"   the link leads to something that cannot be a record, or the   *)
(*           records would not fit the ring                                *)
RECURSIVE Walk(_, _, _, _)
Walk(r, p, used, acc) ==
  IF p < 0 \/ p >= Len(r) \/ Len(r) < 4 THEN [recs |-> acc, how |-> "bad"]
  ELSE LET prev == RingU16(r, p) len == RingU16(r, p + 2) IN
       IF len = 0 THEN [recs |-> acc, how |-> "zero"]
       ELSE IF len < 4 \/ used + len > Len(r) THEN [recs |-> acc, how |-> "bad"]
       ELSE LET acc2 == Append(acc, <<p, len, prev>>) IN
            IF prev = 0 THEN [recs |-> acc2, how |-> "end"]
            ELSE Walk(r, IF p - prev < 0 THEN p - prev + Len(r) ELSE p - prev, used + len, acc2)
Links(r, p) == Walk(r, p, 0, <<>>)

\* each link is the length of the record it leads to, and the chain ends properly
Proper(w) ==
  /\ w.how = "end"
  /\ \A i \in 1..(Len(w.recs) - 1) : w.recs[i][3] = w.recs[i + 1][2]

DayFields == <<F("activity_previous_record_length", "u16", 2), F("activity_record_length", "u16", 2),
               F("activity_record_date", "time", 4), F("activity_daily_presence_counter", "bcd", 2),
               F("activity_day_distance", "u16", 2)>>
DayDecodable(b) == Len(b) >= 12 /\ BcdOk(Sub(b, 8, 2))
DayChanges(b) == Force([i \in 1..((Len(b) - 12) \div 2) |-> ActivityNode(U16(b, 10 + 2 * i))])
DayNode(fo, b) ==
  IF DayDecodable(b)
  THEN Msg(DecAll(fo, DayFields, b) @@ [valid |-> V1(1), activity_change_info |-> Lst(DayChanges(b))])
  ELSE Msg([valid |-> OneOf(<<V1(0), None>>), raw_data |-> V(b)])

\* the days of a ring, oldest first
DaysOf(fo, r, recs) ==
  LET n == Len(recs) IN Force([i \in 1..n |-> DayNode(fo, Ring(r, recs[n + 1 - i][1], recs[n + 1 - i][2]))])

\* What a reader of the file must produce: [must |-> it has to be accepted,
\* days |-> the days of the chain]; when it need not be accepted, any suffix
\* of those days (the newest ones) is allowed too.
ActHead == <<F("oldest_day_record_index", "u16", 2), F("newest_day_record_index", "u16", 2)>>
ActRing(b) == Sub(b, 4, Len(b) - 4)
ActChain(b) == Links(ActRing(b), U16(b, 2))
ActEmpty(b) == Len(b) >= 4 /\ (Len(b) < 8 \/ U16(b, 2) >= Len(b) - 4
                               \/ RingU16(ActRing(b), U16(b, 2) + 2) = 0)
ActMust(b) == Len(b) >= 4 /\ Proper(ActChain(b))
ActDays(fo, b) == IF ActEmpty(b) THEN <<>> ELSE DaysOf(fo, ActRing(b), ActChain(b).recs)

ActNode(fo, b, days) == Msg(DecAll(fo, ActHead, b) @@ [daily_records |-> Lst(days)])
\* differences between the view of an activity file and its bytes
ActDiff(fo, b, view, p) ==
  LET days == ActDays(fo, b) n == Len(days)
      seen == Get(view, <<"daily_records">>)
      k == IF seen[1] = "l" THEN Len(seen[2]) ELSE 0 IN
  IF ActMust(b) \/ k > n THEN Diff(ActNode(fo, b, days), view, p)
  ELSE Diff(ActNode(fo, b, SubSeq(days, n - k + 1, n)), view, p)

(* Writing days as a ring of their own: one after the other from position  *)
(* zero, each linked to the one before.                                    *)
RECURSIVE Chained(_, _)
Chained(days, prev) ==                            \* days: contents after the four header bytes
  IF Len(days) = 0 THEN <<>>
  ELSE B16(prev) \o B16(Len(days[1]) + 4) \o days[1] \o Chained(Tail(days), Len(days[1]) + 4)
====
