---- MODULE Certs ----
(***************************************************************************)
(* The two certificate formats: the 194-byte generation-1 certificate,     *)
(* whose contents are hidden in its signature, and the generation-2        *)
(* certificate, a tree of tagged values.                                   *)
(***************************************************************************)
EXTENDS Codec

\* an 8-byte reference is shown as a decimal number
RECURSIVE DivTen(_, _, _)
DivTen(b, i, r) ==                                \* long division of b by ten from byte i on, remainder r so far
  IF i > Len(b) THEN [q |-> <<>>, r |-> r]
  ELSE LET n == r * 256 + b[i] x == DivTen(b, i + 1, n % 10) IN [q |-> <<n \div 10>> \o x.q, r |-> x.r]
RECURSIVE DecimalDigits(_)
DecimalDigits(b) ==
  IF \A i \in 1..Len(b) : b[i] = 0 THEN <<>>
  ELSE LET d == DivTen(b, 1, 0) IN DecimalDigits(d.q) \o <<48 + d.r>>
RefText(b) == LET d == DecimalDigits(b) IN IF d = <<>> THEN <<48>> ELSE d

RsaCarOf(b) == Sub(b, 186, 8)
RsaNode(b) == Msg([certificate_authority_reference |-> V(RefText(RsaCarOf(b))), raw_data |-> V(b)])

(* Tagged values with definite, shortest lengths.                          *)
NoTlv == [ok |-> FALSE, tag |-> 0, from |-> 0, len |-> 0, next |-> 0]
TlvAt(b, o) ==
  IF o + 2 > Len(b) THEN NoTlv
  ELSE LET two == At(b, o) % 32 = 31
           tag == IF two THEN U16(b, o) ELSE At(b, o)
           l == o + (IF two THEN 2 ELSE 1) IN
       IF l >= Len(b) THEN NoTlv
       ELSE LET n == At(b, l)
                h == IF n < 128 THEN 1 ELSE IF n = 129 THEN 2 ELSE 3
                len == IF n < 128 THEN n
                       ELSE IF n = 129 /\ l + 1 < Len(b) THEN At(b, l + 1)
                       ELSE IF n = 130 /\ l + 2 < Len(b) THEN U16(b, l + 1) ELSE -1
                short == CASE h = 1 -> TRUE [] h = 2 -> len >= 128 [] h = 3 -> len >= 256 IN
            IF len < 0 \/ ~short \/ l + h + len > Len(b) THEN NoTlv
            ELSE [ok |-> TRUE, tag |-> tag, from |-> l + h, len |-> len, next |-> l + h + len]
RECURSIVE TlvSeq(_, _, _)
TlvSeq(b, o, acc) ==                              \* the values filling b, or <<>> if it does not split
  IF o = Len(b) THEN acc
  ELSE LET t == TlvAt(b, o) IN
       IF ~t.ok THEN <<>> ELSE TlvSeq(b, t.next, Append(acc, [tag |-> t.tag, v |-> Sub(b, t.from, t.len)]))
Tlvs(b) == TlvSeq(b, 0, <<>>)
TagsAre(s, tags) == Len(s) = Len(tags) /\ \A i \in 1..Len(tags) : s[i].tag = tags[i]

EccBodyTags == <<24361, 66, 24396, 32585, 24352, 24357, 24356>>  \* 5F29 42 5F4C 7F49 5F20 5F25 5F24
\* object identifiers: first byte 40a+b, then base-128 groups; only what fits TLC's integers
RECURSIVE OidArcs(_, _, _)
OidArcs(b, i, n) ==
  IF i > Len(b) THEN <<>>
  ELSE IF b[i] < 128 THEN <<n * 128 + b[i]>> \o OidArcs(b, i + 1, 0)
  ELSE OidArcs(b, i + 1, n * 128 + (b[i] - 128))
RECURSIVE NumText(_)
NumText(n) == IF n < 10 THEN <<48 + n>> ELSE NumText(n \div 10) \o <<48 + (n % 10)>>
OidText(b) ==
  LET arcs == OidArcs(b, 1, 0)
      one(i) == <<46>> \o NumText(arcs[i]) IN
  NumText(arcs[1] \div 40) \o <<46>> \o NumText(arcs[1] % 40) \o Flat([i \in 1..(Len(arcs) - 1) |-> one(i + 1)])
OidOk(b) ==
  /\ Len(b) \in 2..10 /\ b[1] < 120 /\ b[Len(b)] < 128
  /\ \A i \in 2..Len(b) : b[i] = 128 => b[i - 1] >= 128           \* no padding groups
  /\ \A i \in 1..(Len(b) - 3) : ~(b[i] >= 128 /\ b[i + 1] >= 128 /\ b[i + 2] >= 128 /\ b[i + 3] >= 128)

EccParts(b) ==
  LET top == Tlvs(b) IN
  IF ~TagsAre(top, <<32545>>) THEN [ok |-> FALSE]                  \* 7F21
  ELSE LET two == Tlvs(top[1].v) IN
  IF ~TagsAre(two, <<32590, 24375>>) THEN [ok |-> FALSE]           \* 7F4E 5F37
  ELSE LET body == Tlvs(two[1].v) sig == two[2].v IN
  IF ~TagsAre(body, EccBodyTags) THEN [ok |-> FALSE]
  ELSE LET pk == Tlvs(body[4].v) IN
  IF ~TagsAre(pk, <<6, 134>>) THEN [ok |-> FALSE]
  ELSE [ok |-> /\ Len(body[1].v) = 1 /\ Len(body[2].v) = 8 /\ Len(body[3].v) = 7 /\ Len(body[5].v) = 8
               /\ Len(body[6].v) = 4 /\ Len(body[7].v) = 4 /\ OidOk(pk[1].v)
               /\ Len(pk[2].v) % 2 = 1 /\ Len(pk[2].v) > 1 /\ pk[2].v[1] = 4
               /\ Len(sig) % 2 = 0 /\ Len(sig) > 0,
        body |-> body, oid |-> pk[1].v, point |-> pk[2].v, sig |-> sig,
        signed |-> Sub(top[1].v, 0, TlvAt(top[1].v, 0).next)]
EccSize(b) == Len(b) \in 204..341
EccOk(b) == EccSize(b) /\ EccParts(b).ok
EccDate(b) == IF b = <<0, 0, 0, 0>> THEN OneOf(<<None, V(<<0, 0>>)>>) ELSE V(U32(b, 0))
EccNode(b) ==
  LET p == EccParts(b) c == (Len(p.point) - 1) \div 2 s == Len(p.sig) \div 2 IN
  Msg([certificate_profile_identifier |-> V1(p.body[1].v[1]),
       certificate_authority_reference |-> V(RefText(p.body[2].v)),
       certificate_holder_authorisation |-> V(p.body[3].v),
       public_key |-> Msg([domain_parameters_oid |-> V(OidText(p.oid)),
                           public_point_x |-> V(Sub(p.point, 1, c)), public_point_y |-> V(Sub(p.point, 1 + c, c))]),
       certificate_holder_reference |-> V(RefText(p.body[5].v)),
       certificate_effective_date |-> EccDate(p.body[6].v),
       certificate_expiration_date |-> EccDate(p.body[7].v),
       signature |-> Msg([r |-> V(Sub(p.sig, 0, s)), s |-> V(Sub(p.sig, s, s))]),
       raw_data |-> V(b)])
====
