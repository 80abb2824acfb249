---- MODULE MC_Verify ----
(* Every combination of what a driver card carries and what a source of     *)
(* certificates answers.  The operator that says what verifying a file must *)
(* give is checked against the law of the property, stated link by link,    *)
(* and every combination is written down to be played in the real code.     *)
(* Bytes are symbols of the right shape.                                    *)
EXTENDS Trust
Scope == JsonDeserialize(IOEnv.SCOPE)     \* which: "gen1", "gen2" or "both"
Cards == {"missing", "genuine", "forged", "altered", "byroot", "misnamed", "inner"}
Cas == {"error", "nil", "genuine", "recovered", "forged", "foreign", "renamed", "halfkey", "cross", "wrongkey"}
Roots == {"error", "nil", "genuine", "otherkey", "otherid"}
Cards2 == {"missing", "genuine", "forged", "altered", "misnamed", "byother"}
Cas2 == {"error", "nil", "genuine", "otherkey", "renamed", "nokey", "offcurve"}
One == [card : Cards, ca : Cas, root : Roots]
Two == [card : Cards2, ca : Cas2]
None1 == [card |-> "absent", ca |-> "error", root |-> "error"]
None2 == [card |-> "absent", ca |-> "error"]
VARIABLES one, two
\* symbols: root 1 with key 11 issues authority 2 with key 12, which issues cards
Sym(x, n) == [i \in 1..n |-> x]
Ref(x) == <<0, 0, 0, 0, 0, 0, 0, x>>
Bytes1(id, car) == Sym(id, 186) \o Ref(car)
Issued1(id, incar, car, by, chr, key) ==
  [gen |-> 1, good |-> TRUE, data |-> Bytes1(id, car), by |-> <<Sym(by, 128), Sym(1, 8)>>, chr |-> Ref(chr), car |-> Ref(incar),
   eov |-> <<1, 2, 3, 4>>, n |-> Sym(key, 128), e |-> Sym(1, 8)]
All1 == {Issued1(51, 1, 1, 11, 2, 12), Issued1(52, 1, 1, 21, 2, 12), Issued1(53, 1, 1, 11, 4, 12),
         Issued1(61, 2, 2, 12, 3, 13), Issued1(62, 1, 1, 11, 3, 13), Issued1(63, 2, 5, 12, 3, 13), Issued1(64, 6, 2, 12, 3, 13)}
CardOf == [genuine |-> Bytes1(61, 2), forged |-> Bytes1(69, 2), altered |-> [Bytes1(61, 2) EXCEPT ![150] = 0], byroot |-> Bytes1(62, 1),
           misnamed |-> Bytes1(63, 5), inner |-> Bytes1(64, 2)]
Held(n, chr, key) == Over(n, [certificate_holder_reference |-> V(RefText(Ref(chr))), rsa_modulus |-> V(Sym(key, 128)), rsa_exponent |-> V(Sym(1, 8))])
Ca == RsaNode(Bytes1(51, 1))
CaOf == [genuine |-> Ca, recovered |-> Held(Ca, 2, 12), forged |-> RsaNode(Bytes1(59, 1)), foreign |-> RsaNode(Bytes1(52, 1)),
         renamed |-> RsaNode(Bytes1(53, 1)), halfkey |-> Over(Ca, [rsa_modulus |-> V(Sym(12, 128))]), cross |-> Held(Ca, 4, 12), wrongkey |-> Held(Ca, 2, 14)]
RootsOf == [genuine |-> RootNode(Ref(1) \o Sym(11, 128) \o Sym(1, 8)), otherkey |-> RootNode(Ref(1) \o Sym(21, 128) \o Sym(1, 8)),
            otherid |-> RootNode(Ref(9) \o Sym(11, 128) \o Sym(1, 8))]
\* generation 2
Tlv1(tag, v) == tag \o (IF Len(v) < 128 THEN <<Len(v)>> ELSE IF Len(v) < 256 THEN <<129, Len(v)>> ELSE <<130>> \o B16(Len(v))) \o v
Oid == <<42, 134, 72, 206, 61, 3, 1, 7>>
Bytes2(id, car, chr, key) ==
  LET body == Tlv1(<<127, 78>>, Tlv1(<<95, 41>>, <<0>>) \o Tlv1(<<66>>, Ref(car)) \o Tlv1(<<95, 76>>, Sym(1, 7)) \o
                Tlv1(<<127, 73>>, Tlv1(<<6>>, Oid) \o Tlv1(<<134>>, <<4>> \o Sym(key, 64))) \o
                Tlv1(<<95, 32>>, Ref(chr)) \o Tlv1(<<95, 37>>, <<1, 2, 3, 4>>) \o Tlv1(<<95, 36>>, <<5, 6, 7, 8>>)) IN
  Tlv1(<<127, 33>>, body \o Tlv1(<<95, 55>>, Sym(id, 64)))
Issued2(data, by) == [gen |-> 2, good |-> TRUE, data |-> data, by |-> <<OidText(Oid), Sym(by, 32), Sym(by, 32)>>]
Card2Of == [genuine |-> Bytes2(71, 2, 3, 41), forged |-> Bytes2(79, 2, 3, 41), altered |-> Bytes2(71, 2, 3, 42), misnamed |-> Bytes2(72, 5, 3, 41),
            byother |-> Bytes2(73, 2, 3, 41)]
All2 == {Issued2(Card2Of.genuine, 31), Issued2(Card2Of.misnamed, 31), Issued2(Card2Of.byother, 32)}
Ca2 == EccNode(Bytes2(81, 1, 2, 31))
Ca2Of == [genuine |-> Ca2, otherkey |-> EccNode(Bytes2(82, 1, 2, 32)), renamed |-> EccNode(Bytes2(83, 1, 4, 31)), nokey |-> Msg(Without(Ca2[2], {"public_key"})),
          offcurve |-> Over(Ca2, [public_key |-> Over(Field(Ca2, "public_key"), [public_point_y |-> V(Sym(30, 32))])])]
Sees(f, x) == IF x \in DOMAIN f THEN x ELSE "error"
CertsOf(x, y) ==
  (IF x.card \in DOMAIN CardOf THEN ("f.card1" :> RsaNode(CardOf[x.card])) ELSE Empty) @@
  (IF x.ca \in DOMAIN CaOf THEN ("ca1" :> CaOf[x.ca]) ELSE Empty) @@ (IF x.root \in DOMAIN RootsOf THEN ("root" :> RootsOf[x.root]) ELSE Empty) @@
  (IF y.card \in DOMAIN Card2Of THEN ("f.sign2" :> EccNode(Card2Of[y.card])) ELSE Empty) @@ (IF y.ca \in DOMAIN Ca2Of THEN ("ca2" :> Ca2Of[y.ca]) ELSE Empty)
Says(x, dom, h) == IF x \in dom THEN h ELSE x
MInit ==
  /\ CASE Scope.which = "gen1" -> one \in One /\ two = None2
       [] Scope.which = "gen2" -> one = None1 /\ two \in Two
       [] OTHER -> one \in {x \in One : x.root \in {"genuine", "otherkey"} /\ x.ca \in {"error", "genuine", "recovered", "wrongkey"}} /\ two \in Two
  /\ issued = All1 \cup All2
  /\ certs = CertsOf(one, two)
  /\ sources = [s |-> [kind |-> "script", fresh |-> FALSE, root |-> Says(one.root, DOMAIN RootsOf, "root"), rsa |-> ("*" :> Says(one.ca, DOMAIN CaOf, "ca1")),
                       ecc |-> ("*" :> Says(two.ca, DOMAIN Ca2Of, "ca2"))]]
  /\ files = [f |-> [kind |-> 2, apps |-> <<one.card # "absent", two.card # "absent">>, has |-> TRUE]]
  /\ bufs = Empty
  /\ PrintT("CASE " \o ToJson([one |-> one, two |-> two]))
MNext == FALSE /\ UNCHANGED <<one, two, tvars_>>
MSpec == MInit /\ [][MNext]_<<one, two, tvars_>>

\* a link of the chain: the key that checks it belongs to the issuer it names
Rooted(x) == \/ x.ca \in {"genuine", "halfkey"} /\ x.root = "genuine"
             \/ x.ca = "foreign" /\ x.root = "otherkey"
             \/ x.ca = "recovered"
Link1(x) == x.card = "absent" \/ (x.card \in {"genuine", "inner"} /\ Rooted(x))
Link2(y) == y.card = "absent" \/ <<y.card, y.ca>> \in {<<"genuine", "genuine">>, <<"byother", "otherkey">>}
Result0 == VerifyFile("f", "s", FALSE)
Law == Result0.out = IF Link1(one) /\ Link2(two) THEN "ok" ELSE "err"
\* afterwards the marks tell the same story
MarkOf(h) == IF h \in DOMAIN Result0.certs THEN Field(Result0.certs[h], "signature_valid") = On ELSE FALSE
Marks == /\ (one.card # "absent" => (MarkOf("f.card1") = Link1(one)))
         /\ (Result0.out = "ok" /\ two.card # "absent" => MarkOf("f.sign2"))
\* nobody is asked when nothing answers in time
Late == VerifyFile("f", "s", TRUE).out = IF one.card = "absent" /\ two.card = "absent" THEN "ok" ELSE "err"
====
