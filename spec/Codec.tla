---- MODULE Codec ----
(***************************************************************************)
(* The primitive values of the tachograph data dictionary: what the bytes  *)
(* of each mean (Dec) and which bytes stand for a value (Enc).             *)
(*                                                                         *)
(* A layout is a sequence of fields                                        *)
(*   [n |-> name, t |-> type, w |-> width in bytes, e |-> code table,      *)
(*    fs |-> fields of a group]                                            *)
(* placed one after the other.                                             *)
(***************************************************************************)
EXTENDS Bytes, Codes, CodePages

F(n, t, w) == [n |-> n, t |-> t, w |-> w, e |-> "", fs |-> <<>>]
FE(n, t, e) == [n |-> n, t |-> t, w |-> 1, e |-> e, fs |-> <<>>]
RECURSIVE Width(_)
Width(fs) == IF Len(fs) = 0 THEN 0 ELSE fs[1].w + Width(Tail(fs))
G(n, fs) == [n |-> n, t |-> "group", w |-> Width(fs), e |-> "", fs |-> fs]
OffsetOf(fs, i) == Width(SubSeq(fs, 1, i - 1))

(***************************************************************************)
(* Text.                                                                   *)
(***************************************************************************)
Space == {0, 9, 10, 11, 12, 13, 32}
\* characters whose removal at the ends is neither required nor forbidden
MaybePad == {133, 160, 255, 65533}
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ s[1] \in Space THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ s[Len(s)] \in Space THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
TextNode(t) ==
  IF Len(t) = 0 THEN OneOf(<<V(<<>>), None>>)
  ELSE IF t[1] \in MaybePad \/ t[Len(t)] \in MaybePad \/ t[1] = -1 \/ t[Len(t)] = -1 THEN AnyText
  ELSE IF -1 \in Range(t) THEN <<"w", t>>
  ELSE V(t)
CharOf(tab, x) == IF x < 128 THEN x ELSE tab[x - 127]
Decoded(page, b) == LET tab == PageTable(page) IN Force([i \in 1..Len(b) |-> CharOf(tab, b[i])])
PagedText(page, b) ==
  IF page = 255 THEN OneOf(<<V(<<>>), None>>)
  ELSE IF \A i \in 1..Len(b) : b[i] \in {0, 255} THEN OneOf(<<V(<<>>), None>>)
  ELSE IF page \notin KnownPages THEN AnyText
  ELSE TextNode(Trim(Decoded(page, b)))
\* bytes the result may remember, but only as they are
Kept(b) == OneOf(<<None, V(b)>>)
StrNode(b) == Msg([encoding |-> V1(PageEnum(b[1])), value |-> PagedText(b[1], Tail(b)), raw_data |-> Kept(b)])
Ia5Text(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN TextNode(Trim(b)) ELSE AnyText
\* a bare text, without its bytes: white space other than blanks may count as padding or not
RECURSIVE TrimB(_)
TrimB(s) == IF Len(s) > 0 /\ s[Len(s)] \in {0, 32} THEN TrimB(SubSeq(s, 1, Len(s) - 1)) ELSE s
VinNode(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN OneOf(<<TextNode(Trim(b)), V(TrimR(b)), V(TrimB(b))>>) ELSE AnyText
Ia5Node(b) == Msg([value |-> Ia5Text(b), raw_data |-> Kept(b)])

(***************************************************************************)
(* Coded values.                                                           *)
(***************************************************************************)
\* unrecognised is number 1 and unspecified number 0 in every table
EnumNode(e, c) ==
  IF Code2Num(e, c) # 0 THEN V1(Code2Num(e, c)) ELSE MayReject(<<V1(1), None, V1(0)>>) \o <<e>>
RECURSIVE HasNation(_)
HasNation(e) ==
  CASE e[1] = "r" -> Len(e) = 3 /\ e[3] = "nation"
    [] e[1] = "l" -> \E i \in 1..Len(e[2]) : HasNation(e[2][i])
    [] e[1] = "m" -> \E k \in DOMAIN e[2] : HasNation(e[2][k])
    [] OTHER -> FALSE

Half(x) == x \div 65536
TimeNode(b) == IF b = <<0, 0, 0, 0>> THEN None ELSE V(U32(b, 0))
Signed24(n) == IF n >= 8388608 THEN n - 16777216 ELSE n

DateNode(b) ==
  IF b = <<0, 0, 0, 0>> \/ ~BcdOk(b) THEN MayReject(<<None, Msg([year |-> None, month |-> None, day |-> None]), Whatever>>)
  ELSE LET y == Bcd(Sub(b, 0, 2)) m == Bcd(Sub(b, 2, 1)) d == Bcd(Sub(b, 3, 1)) IN
       IF m \in 1..12 /\ d \in 1..31 /\ y > 0 THEN Msg([year |-> V1(y), month |-> V1(m), day |-> V1(d)])
       ELSE MayReject(<<None, Whatever>>)

Ia5F(fo, b) == IF fo = "code" THEN Whatever ELSE Ia5Node(b)
\* the full card number: card type, nation, and a number whose structure depends on the type
DriverNumber(fo, b) ==                                \* 16 bytes
  Msg([driver_identification_number |-> Ia5F(fo, Sub(b, 0, 14)),
       card_replacement_index |-> Ia5F(fo, Sub(b, 14, 1)),
       card_renewal_index |-> Ia5F(fo, Sub(b, 15, 1))])
OwnerNumber(fo, b) ==
  Msg([owner_identification |-> Ia5F(fo, Sub(b, 0, 13)),
       consecutive_index |-> Ia5F(fo, Sub(b, 13, 1)),
       replacement_index |-> Ia5F(fo, Sub(b, 14, 1)),
       renewal_index |-> Ia5F(fo, Sub(b, 15, 1))])
IsIndex(x) == x \in 48..57 \/ x \in 65..90
CardTypes == {1, 2, 3, 4}                         \* driver, workshop, control, company
FullCardOk(b) == b[1] \in CardTypes
FullCardNode(fo, b) ==                                \* 18 bytes
  IF ~FullCardOk(b) THEN MayReject(<<Whatever>>)
  ELSE Msg((IF fo = "text" THEN [card_type |-> Whatever, card_issuing_member_state |-> Whatever]
            ELSE [card_type |-> V1(Code2Num("equip", b[1])),
                  card_issuing_member_state |-> EnumNode("nation", b[2])]) @@
           (IF b[1] = 1 THEN [driver_identification |-> DriverNumber(fo, Sub(b, 2, 16))]
            ELSE [owner_identification |-> OwnerNumber(fo, Sub(b, 2, 16))]))

ActivityNode(w) ==                                \* one activity change word
  Msg([slot |-> V1(Code2Num("slot", Bit(w, 15))),
       crew |-> V1(Bit(w, 14)),
       inserted |-> V1(1 - Bit(w, 13)),
       activity |-> V1(Code2Num("act", (w \div 2048) % 4)),
       time_of_change_minutes |-> V1(w % 2048)])

ControlBits == <<[n |-> "card_downloading", k |-> 7], [n |-> "vu_downloading", k |-> 6],
                 [n |-> "printing", k |-> 5], [n |-> "display", k |-> 4],
                 [n |-> "calibration_checking", k |-> 3]>>
ControlNode(x) ==
  Msg(Fields([i \in 1..5 |-> <<ControlBits[i].n,
        IF Bit(x, ControlBits[i].k) = 1 THEN V1(1) ELSE OneOf(<<V1(0), None>>)>>]))

(* The focus of a comparison: "all" fields, only the "text" fields, or only *)
(* the fields that are not text ("code").                                  *)
TextTypes == {"ia5", "str", "vin"}
MixedTypes == {"group", "card18", "card18g"}
InFocus(fo, t) == fo = "all" \/ t \in MixedTypes \/ ((fo = "text") <=> (t \in TextTypes))

\* bytes of a field -> its node
RECURSIVE Dec(_, _, _)
RECURSIVE DecAll(_, _, _)
\* the fields of a layout, as a set of names to nodes
DecAll(fo, fs, b) ==
  LET one(i) == LET f == fs[i] x == Sub(b, OffsetOf(fs, i), f.w) IN
        IF f.t = "enumu" THEN
          IF fo = "text" THEN <<<<f.n, Whatever>>, <<"unrecognized_" \o f.n, Whatever>>>> ELSE
          IF Code2Num(f.e, x[1]) # 0 THEN <<<<f.n, V1(Code2Num(f.e, x[1]))>>>>
          ELSE <<<<f.n, V1(1)>>, <<"unrecognized_" \o f.n, V1(x[1])>>>>
        ELSE IF f.t = "skip" THEN <<>>
        ELSE <<<<f.n, Dec(fo, f, x)>>>>
  IN Fields(Flat([i \in 1..Len(fs) |-> one(i)]))
Dec(fo, f, b) ==
  CASE ~InFocus(fo, f.t) -> Whatever
    [] f.t = "u8" -> V1(b[1])
    [] f.t = "u16" -> V1(U16(b, 0))
    [] f.t = "u24" -> V1(U24(b, 0))
    [] f.t = "s24" -> V1(Signed24(U24(b, 0)))
    [] f.t = "u32" -> V(U32(b, 0))
    [] f.t = "time" -> TimeNode(b)
    [] f.t = "bool" -> IF b[1] = 0 THEN OneOf(<<V1(0), None>>) ELSE IF b[1] = 1 THEN V1(1) ELSE Whatever
    [] f.t = "enum" -> EnumNode(f.e, b[1])
    [] f.t = "bytes" -> V(b)
    [] f.t = "ia5" -> Ia5Node(b)
    [] f.t = "vin" -> VinNode(b)
    [] f.t = "str" -> StrNode(b)
    [] f.t = "ctl" -> ControlNode(b[1])
    [] f.t = "csv" ->
         IF BcdOk(b) THEN Msg([major |-> V1(BcdByte(b[1])), minor |-> V1(BcdByte(b[2]))])
         ELSE MayReject(<<None, Whatever>>)
    [] f.t = "my" ->
         IF b = <<0, 0>> \/ ~BcdOk(b) \/ BcdByte(b[1]) \notin 1..12 THEN MayReject(<<None, Whatever>>)
         ELSE Msg([month |-> V1(BcdByte(b[1])), year |-> V1(2000 + BcdByte(b[2]))])
    [] f.t = "date" -> DateNode(b)
    [] f.t = "bcd" -> IF BcdOk(b) THEN Msg([value |-> V1(Bcd(b))]) ELSE MayReject(<<Whatever>>)
    [] f.t = "card18" -> FullCardNode(fo, b)
    [] f.t = "card18g" ->
         Msg([full_card_number |-> FullCardNode(fo, b), generation |-> Whatever])
    [] f.t = "group" -> Msg(DecAll(fo, f.fs, b))
====
