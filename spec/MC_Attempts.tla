---- MODULE MC_Attempts ----
(* Histories of verification attempts on one card certificate c and its     *)
(* issuer's certificate, against right and wrong issuers, with the issuer's *)
(* recovered key coming and going.  Bytes are symbols of the right length.  *)
EXTENDS Trust
Scope == JsonDeserialize(IOEnv.SCOPE)     \* depth, gen
Gen == Scope.gen
VARIABLES hist, last
\* symbols
Sym(x, n) == [i \in 1..n |-> x]
Ref(x) == <<0, 0, 0, 0, 0, 0, 0, x>>
Cert1(id, car) == Sym(id, 186) \o Ref(car)
Key(k) == [n |-> Sym(k, 128), e |-> Sym(1, 8)]
Issued1(id, car, by, chr, key) ==
  [gen |-> 1, good |-> TRUE, data |-> Cert1(id, car), by |-> <<Sym(by, 128), Sym(1, 8)>>, chr |-> Ref(chr), car |-> Ref(car),
   eov |-> <<1, 2, 3, 4>>, n |-> Sym(key, 128), e |-> Sym(1, 8)]
\* root 1 with key 11 issues authority 2 with key 12, which issues card 3;
\* another root 1 has key 21; another authority 4 with key 12
Roots == [root |-> RootNode(Ref(1) \o Sym(11, 128) \o Sym(1, 8)), fake |-> RootNode(Ref(1) \o Sym(21, 128) \o Sym(1, 8)),
          other |-> RootNode(Ref(9) \o Sym(11, 128) \o Sym(1, 8))]
MInit ==
  /\ issued = {Issued1(51, 1, 11, 2, 12), Issued1(52, 1, 11, 4, 12), Issued1(53, 2, 12, 3, 13)}
  /\ certs = [ca |-> RsaNode(Cert1(51, 1)), ca2 |-> RsaNode(Cert1(52, 1)), c |-> RsaNode(Cert1(53, 2)), forged |-> RsaNode(Cert1(54, 2))] @@ Roots
  /\ bufs = Empty /\ sources = Empty /\ files = Empty /\ hist = <<>> /\ last = Empty
Calls == {[op |-> "attempt", kind |-> "rsa", h |-> h, g |-> g] : h \in {"c", "forged"}, g \in {"ca", "ca2", "c", ""}} \cup
         {[op |-> "attempt", kind |-> "root", h |-> h, g |-> g] : h \in {"ca", "ca2"}, g \in {"root", "fake", "other", ""}} \cup
         {[op |-> "unset", h |-> "ca", path |-> <<"rsa_modulus">>]}
Word(n) == IF n = On THEN "on" ELSE "off"
Settled(n) == Msg([k \in DOMAIN n[2] |-> IF n[2][k][1] = "o" THEN n[2][k][2][1] ELSE n[2][k]])
MNext ==
  /\ Len(hist) < Scope.depth
  /\ \E c \in Calls :
       /\ hist' = Append(hist, c)
       /\ LET x == Expect(c) IN
          /\ certs' = [h \in DOMAIN certs |-> IF x.certs[h] = certs[h] THEN certs[h] ELSE Settled(x.certs[h])]
          /\ last' = IF c.op = "attempt" THEN (c.h :> x.out) @@ last ELSE last
  /\ IF Len(hist') < Scope.depth THEN TRUE ELSE PrintT("CASE " \o ToJson([calls |-> hist']))
  /\ UNCHANGED <<bufs, issued, sources, files>>
MSpec == MInit /\ [][MNext]_<<hist, last, tvars_>>
\* the mark says what the last attempt on the certificate said
MarkIsLast == \A h \in {"c", "forged", "ca", "ca2"} :
  (Field(certs[h], "signature_valid") = On) = (h \in DOMAIN last /\ last[h] = "ok")
NeverForged == "forged" \in DOMAIN last => last["forged"] = "err"
\* only what the issuer signed is ever recovered
Recovered == \A h \in {"c", "ca", "ca2"} : LET n == Val(certs[h], "rsa_modulus") IN n \in {<<>>, Sym(IF h = "c" THEN 13 ELSE 12, 128)}
RawKept == Val(certs["c"], "raw_data") = Cert1(53, 2) /\ Val(certs["ca"], "raw_data") = Cert1(51, 1)
====
