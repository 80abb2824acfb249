---- MODULE Fetch ----
(***************************************************************************)
(* Building the certificate cache (C26): lists of certificates published   *)
(* on two pages, downloads that end well or badly in any order, and what   *)
(* is left at the end: an index, and one stored file for each certificate. *)
(*                                                                         *)
(* The state is what the publisher offers: the certificates, and the rows  *)
(* of the two lists with what becomes of each download.                    *)
(***************************************************************************)
EXTENDS Certs

Empty == [k \in {} |-> 0]
VARIABLES offer,     \* name -> [gen, data, body]: a certificate; body is what the root signed, if it did
          rows       \* generation -> sequence of [link, country, date, fate, b]
fvars == <<offer, rows>>
FetchInit == offer = Empty /\ rows = <<<<>>, <<>>>>

(* Dates as <<days since 1970, seconds of the day>>.                       *)
RECURSIVE DaysBefore(_)
DaysBefore(y) == 365 * (y - 1970) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) - 477
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE DaysToMonth(_, _)
DaysToMonth(y, m) == IF m = 1 THEN 0 ELSE DaysToMonth(y, m - 1) + MonthDays(y, m - 1)
DateOk(d) == Len(d) = 3 /\ d[2] \in 1..12 /\ d[3] >= 1 /\ d[3] <= MonthDays(d[1], d[2])
DayOf(d) == <<DaysBefore(d[1]) + DaysToMonth(d[1], d[2]) + d[3] - 1, 0>>
\* a 32-bit count of seconds
TimeOf(b) ==
  LET m == U16(b, 0) * 512 + U16(b, 2) \div 128 IN         \* in units of 128 s; a day has 675
  <<m \div 675, (m % 675) * 128 + (U16(b, 2) % 128)>>

(* What one row owes the index.                                            *)
Delivered(r) == r.fate \in {"ok", "slow", "chunked", "redirect"}
Data(r) == offer[r.b].data
Genuine(gen, r) ==
  /\ Delivered(r)
  /\ IF gen = 1 THEN Len(Data(r)) = 194 /\ Len(offer[r.b].body) = 164 ELSE EccOk(Data(r))
\* it can be read in part: either way will do
Partly(gen, r) ==
  /\ Delivered(r) /\ ~Genuine(gen, r)
  /\ IF gen = 1 THEN Len(Data(r)) = 194 ELSE EccSize(Data(r))
CarOf(gen, r) == IF gen = 1 THEN RsaCarOf(Data(r)) ELSE EccParts(Data(r)).body[2].v
ChrOf(gen, r) == IF gen = 1 THEN Sub(offer[r.b].body, 20, 8) ELSE EccParts(Data(r)).body[5].v
RowExp(r) == IF DateOk(r.date) THEN DayOf(r.date) ELSE <<>>
Exps(gen, r) ==
  IF ~Genuine(gen, r) THEN {RowExp(r)}
  ELSE IF gen = 1 THEN
    LET e == Sub(offer[r.b].body, 16, 4) IN
    IF e = <<0, 0, 0, 0>> THEN {RowExp(r)}
    ELSE IF e = <<255, 255, 255, 255>> THEN {RowExp(r), TimeOf(e)} ELSE {TimeOf(e)}
  ELSE {RowExp(r)} \cup (IF RowExp(r) = <<>> THEN {TimeOf(EccParts(Data(r)).body[7].v)} ELSE {})
Truthful(gen, r, e) ==
  /\ e.country = r.country
  /\ e.exp \in Exps(gen, r)
  /\ e.data = Data(r)
  /\ Genuine(gen, r) => e.car = CarOf(gen, r) /\ e.chr = ChrOf(gen, r)
  /\ gen = 1 /\ Partly(gen, r) => e.car = CarOf(gen, r) /\ e.chr = <<>>

\* complaints about the entries of one generation
Entries(gen, es) ==
  LET rs == rows[gen]
      links == {rs[i].link : i \in 1..Len(rs)}
      ofr(l) == {i \in 1..Len(rs) : rs[i].link = l}
      ofe(l) == {k \in 1..Len(es) : es[k].link = l}
      one(l) ==
        LET i == CHOOSE i \in ofr(l) : TRUE n == Cardinality(ofe(l)) IN       \* rows of one link offer one thing
        IF Genuine(gen, rs[i]) /\ n = 0 THEN {"a certificate is missing from the index"}
        ELSE IF n > Cardinality(ofr(l)) THEN {"a certificate is listed more often than published"}
        ELSE IF ~Genuine(gen, rs[i]) /\ ~Partly(gen, rs[i]) /\ n > 0 THEN {"an entry for what could not be obtained"}
        ELSE UNION {
          LET good == {j \in ofr(l) : Truthful(gen, rs[j], es[k])} j == CHOOSE j \in ofr(l) : TRUE IN
          IF good # {} THEN {}
          ELSE IF es[k].data # Data(rs[j]) THEN {"the stored file is not that certificate"}
          ELSE IF \A x \in ofr(l) : es[k].country # rs[x].country THEN {"the country is not that of the row"}
          ELSE IF \A x \in ofr(l) : es[k].exp \notin Exps(gen, rs[x]) THEN {"the expiry is not that of the certificate or its row"}
          ELSE IF Genuine(gen, rs[j]) /\ es[k].car # CarOf(gen, rs[j]) THEN {"the issuer is not that of the certificate"}
          ELSE IF Genuine(gen, rs[j]) /\ es[k].chr # ChrOf(gen, rs[j]) THEN {"the holder is not that of the certificate"}
          ELSE {"an entry does not describe its certificate"} : k \in ofe(l)} IN
  UNION {one(l) : l \in links}
  \cup (IF {es[k].link : k \in 1..Len(es)} \subseteq links THEN {} ELSE {"an entry that was never published"})

RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))
Later(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
\* b may not stand before a
Sorted(es) ==
  \A i \in 1..(Len(es) - 1) : LET a == es[i] b == es[i + 1] IN
    /\ ~Before(b.country, a.country)
    /\ a.country = b.country => (IF a.exp = <<>> THEN b.exp = <<>> ELSE b.exp = <<>> \/ ~Later(b.exp, a.exp))

\* how many downloads of one list were under way at once
RECURSIVE Most(_, _, _, _)
Most(log, gen, now, top) ==
  IF log = <<>> THEN top
  ELSE IF log[1][2] # gen THEN Most(Tail(log), gen, now, top)
  ELSE LET n == IF log[1][1] = "start" THEN now + 1 ELSE now - 1 IN Most(Tail(log), gen, n, Max(top, n))

JFetch(e) ==
  IF e.op # "fetch" THEN {}
  ELSE IF e.out # "ok" THEN {"building the cache did not end"}
  ELSE IF e.gulped THEN {"a download without end is swallowed"}
  ELSE IF e.escaped # <<>> THEN {"a file outside the cache"}
  ELSE IF e.root # "ok" \/ e.pages # <<"ok", "ok">> THEN
    IF e.exit = 0 THEN {"success without " \o (IF e.root # "ok" THEN "the root certificate" ELSE "a list")} ELSE {}
  ELSE IF e.exit # 0 THEN IF e.limit = 0 THEN {} ELSE {"building the cache failed"}
  ELSE IF ~e.indexed THEN {"no index"}
  ELSE
    LET all == e.g[1] \o e.g[2] IN
    Entries(1, e.g[1]) \cup Entries(2, e.g[2])
    \cup (IF Sorted(e.g[1]) /\ Sorted(e.g[2]) THEN {} ELSE {"the entries are out of order"})
    \cup (IF e.rootentry.car = Sub(offer["root"].data, 0, 8) /\ e.rootentry.chr = Sub(offer["root"].data, 0, 8) /\ e.rootentry.data = offer["root"].data THEN {}
          ELSE {"the root certificate is not the published one"})
    \cup (IF {e.files[i] : i \in 1..Len(e.files)} \subseteq ({all[i].path : i \in 1..Len(all)} \cup {e.rootentry.path}) THEN {} ELSE {"a file that no entry lists"})
    \cup (IF e.limit > 0 /\ (Most(e.log, 1, 0, 0) > e.limit \/ Most(e.log, 2, 0, 0) > e.limit) THEN {"more downloads at once than allowed"} ELSE {})

FetchStep(e) ==
  CASE e.op = "case" -> offer' = Empty /\ rows' = <<<<>>, <<>>>>
    [] e.op = "cert" -> offer' = (e.b :> [gen |-> e.gen, data |-> e.data, body |-> e.body]) @@ offer /\ UNCHANGED rows
    [] e.op = "row" -> rows' = [rows EXCEPT ![e.gen] = Append(@, [link |-> e.link, country |-> e.country, date |-> e.date, fate |-> e.fate, b |-> e.b])] /\ UNCHANGED offer
    [] OTHER -> UNCHANGED fvars
====
