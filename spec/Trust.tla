---- MODULE Trust ----
(***************************************************************************)
(* Certificates, where they come from, and what verifying them says.       *)
(*                                                                         *)
(* Cryptography is symbolic: the specification knows which certificates    *)
(* were issued (an action of its own, carried out by the harness), with    *)
(* which key, for which contents; a certificate is genuine iff it is one   *)
(* of these, unaltered, and checked with the key of its issuer.            *)
(***************************************************************************)
EXTENDS Certs, Json, IOUtils

VARIABLES bufs,      \* name -> bytes
          issued,    \* the certificates that were genuinely issued
          certs,     \* handle -> node of a certificate the caller holds
          sources,   \* name -> what a source of certificates answers
          files      \* handle -> what was read: kind, applications
tvars_ == <<bufs, issued, certs, sources, files>>
Empty == [k \in {} |-> 0]

\* what the library was built with: the tables of the index and the stored
\* certificates; empty in models that do not look at them
Store == IF "STORE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.STORE) ELSE [g1 |-> Empty, g2 |-> Empty, root |-> <<>>, index1 |-> Empty, index2 |-> Empty]

Field(n, k) == IF n # None /\ k \in DOMAIN n[2] THEN n[2][k] ELSE None
Val(n, k) == LET x == Field(n, k) IN IF x[1] = "v" THEN x[2] ELSE <<>>
Only(f, S) == [x \in S |-> f[x]]
Over(n, f) == Msg(f @@ n[2])
Off == OneOf(<<None, V1(0)>>)
On == V1(1)
Marked(n, m) == Over(n, [signature_valid |-> m])

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Str(_)
Str(t) == IF t = <<>> THEN "" ELSE (IF t[1] \in 48..57 THEN Digit[t[1] - 47] ELSE "?") \o Str(Tail(t))
RECURSIVE Strip0(_)
Strip0(b) == IF b # <<>> /\ b[1] = 0 THEN Strip0(Tail(b)) ELSE b

(***************************************************************************)
(* Reading.                                                                *)
(***************************************************************************)
RootNode(b) == Msg([key_id |-> V(RefText(Sub(b, 0, 8))), rsa_modulus |-> V(Sub(b, 8, 128)), rsa_exponent |-> V(Sub(b, 136, 8))])
ReadOut(kind, b) ==
  CASE kind = "rsa" -> IF Len(b) = 194 THEN "ok" ELSE "err"
    [] kind = "root" -> IF Len(b) = 144 THEN "ok" ELSE "err"
    [] kind = "ecc" -> IF ~EccSize(b) THEN "err" ELSE IF EccParts(b).ok THEN "ok" ELSE "either"
ReadNode(kind, b) ==
  CASE kind = "rsa" -> Marked(RsaNode(b), Off)
    [] kind = "root" -> RootNode(b)
    [] kind = "ecc" -> IF EccOk(b) THEN Marked(EccNode(b), Off) ELSE Whatever

(***************************************************************************)
(* Verifying one certificate.                                              *)
(***************************************************************************)
\* issued certificates of generation 1 with these bytes under this key
RsaIssued(raw, n, e) ==
  {m \in issued : m.gen = 1 /\ m.good /\ m.by = <<Strip0(n), Strip0(e)>> /\ Sub(m.data, 0, 186) = Sub(raw, 0, 186)}
RsaDate(b) == IF b = <<0, 0, 0, 0>> THEN OneOf(<<None, V(<<0, 0>>)>>)
              ELSE IF b = <<255, 255, 255, 255>> THEN OneOf(<<None, V(U32(b, 0))>>) ELSE V(U32(b, 0))
\* the outcome, and the certificate afterwards
RsaVerify(c, ref, n, e) ==
  LET raw == Val(c, "raw_data")
      good == IF Len(raw) # 194 \/ n = <<>> \/ e = <<>> THEN {} ELSE RsaIssued(raw, n, e) IN
  IF good = {} \/ RefText(RsaCarOf(raw)) # ref THEN [out |-> "err", node |-> Marked(c, Off)]
  ELSE LET m == CHOOSE x \in good : TRUE IN
       [out |-> "ok",
        node |-> Over(c, [signature_valid |-> On,
                          certificate_holder_reference |-> V(RefText(m.chr)),
                          certificate_authority_reference |-> V(RefText(m.car)),
                          end_of_validity |-> RsaDate(m.eov),
                          rsa_modulus |-> V(m.n), rsa_exponent |-> V(m.e)])]
RsaByCa(c, ca) == RsaVerify(c, Val(ca, "certificate_holder_reference"), Val(ca, "rsa_modulus"), Val(ca, "rsa_exponent"))
RsaByRoot(c, root) == RsaVerify(c, Val(root, "key_id"), Val(root, "rsa_modulus"), Val(root, "rsa_exponent"))

EccIssued(ca) ==
  LET pk == Field(ca, "public_key") IN
  {m \in issued : m.gen = 2 /\ m.good /\ m.by = <<Val(pk, "domain_parameters_oid"), Strip0(Val(pk, "public_point_x")), Strip0(Val(pk, "public_point_y"))>>}
\* raw differs from an issued certificate only outside body and signature values
EccLoose(raw, m) ==
  LET d == m.data p == EccParts(d)
      top == TlvAt(d, 0).from
      body == TlvAt(Sub(d, top, Len(d) - top), 0).next
      vals == Len(p.sig) IN
  /\ Len(raw) = Len(d)
  /\ Sub(raw, top, body) = Sub(d, top, body)
  /\ Sub(raw, Len(d) - vals, vals) = Sub(d, Len(d) - vals, vals)
EccVerify(c, ca) ==
  LET raw == Val(c, "raw_data")
      mine == EccIssued(ca)
      sig == Field(c, "signature")
      same(m) == LET p == EccParts(m.data) s == Len(p.sig) \div 2 IN
                 Val(sig, "r") = Sub(p.sig, 0, s) /\ Val(sig, "s") = Sub(p.sig, s, s) IN
  IF ~EccSize(raw) \/ Val(c, "certificate_authority_reference") # Val(ca, "certificate_holder_reference")
  THEN [out |-> "err", node |-> Marked(c, Off)]
  ELSE IF \E m \in mine : m.data = raw /\ same(m) THEN [out |-> "ok", node |-> Marked(c, On)]
  ELSE IF \E m \in mine : EccLoose(raw, m) /\ same(m) THEN [out |-> "either", node |-> Marked(c, OneOf(<<On, V1(0)>>))]
  ELSE [out |-> "err", node |-> Marked(c, Off)]

(***************************************************************************)
(* Sources of certificates.                                                *)
(***************************************************************************)
\* an answer: ok with a certificate the caller knows (h), a fresh one (node)
\* or none at all, or an error; who was asked; whose errors can be found
Answer(out, h, node, calls, errs, asked) == [out |-> out, h |-> h, node |-> node, calls |-> calls, errs |-> errs, asked |-> asked]
Fail(calls, errs, asked) == Answer("err", "", None, calls, errs, asked)

Told(s, kind, ref) ==                             \* what a scripted source was told to answer
  IF kind = "root" THEN s.root
  ELSE LET t == IF kind = "rsa" THEN s.rsa ELSE s.ecc IN
       IF ref \in DOMAIN t THEN t[ref] ELSE IF "*" \in DOMAIN t THEN t["*"] ELSE "error"

ReplyTo(s, url) ==
  IF url \in DOMAIN s.web THEN s.web[url] ELSE IF "*" \in DOMAIN s.web THEN s.web["*"] ELSE [status |-> 0]
FieldOr(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
BodyOf(r) ==
  LET b == IF "b" \in DOMAIN r THEN bufs[r.b] ELSE FieldOr(r, "body", <<>>)
      cut == FieldOr(r, "cut", Len(b)) IN
  SubSeq(b, 1, Min(cut, Len(b))) \o FieldOr(r, "more", <<>>)
Fetched(r, kind, ref) ==                          \* [out, node] of one reply
  LET b == BodyOf(r) st == FieldOr(r, "status", 0) IN
  IF st \notin 200..299 \/ FieldOr(r, "broken", 0) = 1 \/ ReadOut(kind, b) = "err" THEN [out |-> "err", node |-> None]
  ELSE IF kind = "ecc" /\ EccOk(b) /\ RefText(EccParts(b).body[5].v) # ref THEN [out |-> "err", node |-> None]
  ELSE [out |-> IF st = 200 THEN ReadOut(kind, b) ELSE "either", node |-> ReadNode(kind, b)]
Redirects == {301, 302, 303, 307, 308}

RECURSIVE Resolve(_, _, _, _), Ask1(_, _, _, _, _, _, _)
\* the members of a chain in order
Ask1(of, i, kind, ref, cancelled, calls, errs) ==
  IF i > Len(of) THEN Fail(calls, errs, of # <<>>)
  ELSE LET a == Resolve(of[i], kind, ref, cancelled) IN
       IF a.out = "err" THEN Ask1(of, i + 1, kind, ref, cancelled, calls \o a.calls, errs \cup a.errs)
       ELSE [a EXCEPT !.calls = calls \o @]
\* ref is a pair: as a string, as codes
Resolve(name, kind, ref, cancelled) ==
  CASE name = "embedded" ->
         (IF kind = "root" THEN Answer("ok", "", RootNode(Store.root), <<>>, {}, FALSE)
          ELSE LET t == IF kind = "rsa" THEN Store.g1 ELSE Store.g2 IN
               IF ref[1] \in DOMAIN t THEN Answer(IF cancelled THEN "either" ELSE "ok", "", ReadNode(kind, t[ref[1]]), <<>>, {}, FALSE)
               ELSE Fail(<<>>, {}, FALSE))
    [] name = "default" -> Ask1(<<"embedded", "inet">>, 1, kind, ref, cancelled, <<>>, {})
    [] OTHER ->
  LET s == sources[name] IN
  CASE s.kind = "script" ->
         (LET call == <<<<name, kind, IF kind = "root" THEN "" ELSE ref[1]>>>>
              t == Told(s, kind, ref[1]) IN
          IF cancelled THEN Fail(call, {}, TRUE)
          ELSE IF t = "error" \/ (t # "nil" /\ t \notin DOMAIN certs) THEN Fail(call, {name}, TRUE)
          ELSE IF t = "nil" THEN Answer("ok", "", None, call, {}, TRUE)
          ELSE Answer("ok", IF s.fresh THEN "" ELSE t, certs[t], call, {}, TRUE))
    [] s.kind = "chain" -> Ask1(s.of, 1, kind, ref, cancelled, <<>>, {})
    [] s.kind = "client" ->
         (LET index == IF kind = "rsa" THEN Store.index1 ELSE Store.index2 IN
          IF kind = "root" \/ cancelled \/ ref[1] \notin DOMAIN index THEN Fail(<<>>, {}, FALSE)
          ELSE LET r == ReplyTo(s, index[ref[1]])
                   st == FieldOr(r, "status", 0) IN
               IF st \in Redirects /\ "location" \in DOMAIN r
               THEN LET f == Fetched(ReplyTo(s, r.location), kind, ref[2]) IN
                    IF f.out = "err" THEN Fail(<<>>, {}, FALSE) ELSE Answer("either", "", f.node, <<>>, {}, FALSE)
               ELSE LET f == Fetched(r, kind, ref[2]) IN
                    IF f.out = "err" THEN Fail(<<>>, {}, FALSE) ELSE Answer(f.out, "", f.node, <<>>, {}, FALSE))
\* the addresses a source may request
RECURSIVE Addresses(_, _, _)
Addresses(name, kind, ref) ==
  IF name = "embedded" THEN {}
  ELSE IF name = "default" THEN Addresses("inet", kind, ref)
  ELSE LET s == sources[name] IN
       IF s.kind = "script" \/ kind = "root" THEN {}
       ELSE IF s.kind = "chain" THEN UNION {Addresses(s.of[i], kind, ref) : i \in 1..Len(s.of)}
       ELSE LET index == IF kind = "rsa" THEN Store.index1 ELSE Store.index2 IN
            IF ref \notin DOMAIN index THEN {}
            ELSE LET r == ReplyTo(s, index[ref]) IN
                 {index[ref]} \cup (IF "location" \in DOMAIN r THEN {r.location} ELSE {})
RefOf(n, k) == <<Str(Val(n, k)), Val(n, k)>>

(***************************************************************************)
(* Verifying a file.                                                       *)
(***************************************************************************)
Place(f, p) == f \o "." \o p
\* the outcome, the certificates afterwards, and whether all of them are settled
Result(out, cs) == [out |-> out, certs |-> cs]
Verify1(cs, f, r, cancelled) ==
  LET h == Place(f, "card1") IN
  IF h \notin DOMAIN cs THEN Result("err", cs)
  ELSE LET own == r = "none"
           a == IF own THEN (IF Place(f, "ca1") \in DOMAIN cs THEN Answer("ok", Place(f, "ca1"), cs[Place(f, "ca1")], <<>>, {}, FALSE) ELSE Fail(<<>>, {}, FALSE))
                ELSE Resolve(r, "rsa", RefOf(cs[h], "certificate_authority_reference"), cancelled) IN
       IF a.out = "err" \/ a.node = None THEN Result("err", [cs EXCEPT ![h] = Marked(@, Off)])
       ELSE LET bare == ~own /\ (Val(a.node, "rsa_modulus") = <<>> \/ Val(a.node, "rsa_exponent") = <<>>)
                root == IF bare THEN Resolve(r, "root", <<"", <<>>>>, cancelled) ELSE Fail(<<>>, {}, FALSE)
                rv == IF ~bare THEN [out |-> "ok", node |-> a.node]
                      ELSE IF root.out = "err"          \* no attempt was made on the issuer
                      THEN [out |-> "err", node |-> Marked(a.node, OneOf(<<Field(a.node, "signature_valid"), None, V1(0)>>))]
                      ELSE RsaByRoot(a.node, root.node)
                cs1 == IF a.h # "" /\ bare THEN [cs EXCEPT ![a.h] = rv.node] ELSE cs IN
            IF rv.out = "err" THEN Result("err", [cs1 EXCEPT ![h] = Marked(@, Off)])
            ELSE LET v == RsaByCa(cs1[h], rv.node) IN
                 Result(IF v.out = "ok" /\ "either" \in {a.out, root.out} THEN "either" ELSE v.out, [cs1 EXCEPT ![h] = v.node])
Verify2(cs, f, r, cancelled) ==
  LET h == Place(f, "sign2") IN
  IF h \notin DOMAIN cs THEN Result("err", cs)
  ELSE LET own == r = "none"
           a == IF own THEN (IF Place(f, "ca2") \in DOMAIN cs THEN Answer("ok", Place(f, "ca2"), cs[Place(f, "ca2")], <<>>, {}, FALSE) ELSE Fail(<<>>, {}, FALSE))
                ELSE Resolve(r, "ecc", RefOf(cs[h], "certificate_authority_reference"), cancelled) IN
       IF a.out = "err" \/ a.node = None THEN Result("err", [cs EXCEPT ![h] = Marked(@, Off)])
       ELSE LET v == EccVerify(cs[h], a.node) IN
            Result(IF v.out = "ok" /\ a.out = "either" THEN "either" ELSE v.out, [cs EXCEPT ![h] = v.node])
\* both applications: the second may be left alone once the first has failed
VerifyFile(f, r, cancelled) ==
  LET m == files[f]
      one == IF m.apps[1] THEN Verify1(certs, f, r, cancelled) ELSE Result("ok", certs)
      two == IF m.apps[2] THEN Verify2(one.certs, f, r, cancelled) ELSE Result("ok", one.certs)
      h == Place(f, "sign2") IN
  IF m.kind # 2 THEN Result("ok", certs)
  ELSE IF ~m.has THEN Result("err", certs)
  ELSE IF one.out # "err" THEN
         Result(IF "err" \in {one.out, two.out} THEN "err" ELSE IF "either" \in {one.out, two.out} THEN "either" ELSE "ok", two.certs)
  ELSE Result("err", IF h \in DOMAIN certs THEN [one.certs EXCEPT ![h] = Over(certs[h], [signature_valid |-> Whatever])] ELSE one.certs)

(***************************************************************************)
(* What each call should have done.                                        *)
(***************************************************************************)
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Changed(e) == IF "changed" \in DOMAIN e THEN {e.changed[i] : i \in 1..Len(e.changed)} ELSE {}
After(e, base) == [h \in {x[1] : x \in Changed(e)} |-> (CHOOSE x \in Changed(e) : x[1] = h)[2]] @@ base
Cancelled(e) == FieldOr(e, "cancelled", 0) = 1
HandlesOf(f) == {Place(f, p) : p \in {"card1", "ca1", "ma2", "sign2", "ca2", "link2"}}
NodeOr(h) == IF h = "" THEN None ELSE certs[h]
RECURSIVE Deep(_, _, _)
Deep(n, path, x) ==
  IF Len(path) = 1 THEN (IF x = None THEN Msg(Without(n[2], {path[1]})) ELSE Over(n, path[1] :> x))
  ELSE Over(n, path[1] :> Deep(IF path[1] \in DOMAIN n[2] THEN n[2][path[1]] ELSE Msg(Empty), Tail(path), x))

\* [out, certs]: the outcome ("ok", "err" or "either") and the certificates
Expect(e) ==
  CASE e.op = "cert" ->
         LET b == bufs[e.b] base == Without(certs, {e.h}) IN
         Result(ReadOut(e.kind, b), IF e.out = "ok" THEN (e.h :> ReadNode(e.kind, b)) @@ base ELSE base)
    [] e.op \in {"unset", "setbytes", "settext"} ->
         Result("ok", [certs EXCEPT ![e.h] = Deep(@, e.path, IF e.op = "unset" THEN None ELSE IF e.op = "setbytes" THEN V(e.v) ELSE Whatever)])
    [] e.op = "smudge" -> Result("ok", [certs EXCEPT ![e.h] = Whatever])
    [] e.op = "attempt" ->
         (IF e.h = "" THEN Result("err", certs)
          ELSE LET v == IF e.g = "" THEN [out |-> "err", node |-> Marked(certs[e.h], Off)]
                        ELSE CASE e.kind = "rsa" -> RsaByCa(certs[e.h], certs[e.g])
                               [] e.kind = "root" -> RsaByRoot(certs[e.h], certs[e.g])
                               [] e.kind = "ecc" -> EccVerify(certs[e.h], certs[e.g])
                   n == IF v.out = "either" THEN Marked(v.node, IF e.out = "ok" THEN On ELSE Off) ELSE v.node IN
               Result(v.out, [certs EXCEPT ![e.h] = n]))
    [] e.op = "ask" ->
         (LET a == Resolve(e.r, e.kind, IF e.kind = "root" THEN <<"", <<>>>> ELSE <<e.ref, e.refcodes>>, Cancelled(e))
              h == FieldOr(e, "h", "") IN
          Result(a.out, IF e.out = "ok" /\ h # "" /\ ~e.nil THEN (h :> a.node) @@ certs ELSE certs))
    [] e.op = "adopt" -> Result("ok", [h \in {x[1] : x \in Changed(e)} |-> Whatever] @@ Without(certs, HandlesOf(e.f)))
    [] e.op = "verify" -> IF e.f = "" THEN Result("err", certs) ELSE VerifyFile(e.f, e.r, Cancelled(e))
    [] OTHER -> Result("any", certs)

OutDiff(want, e) ==
  IF want \in {"any", "either"} \/ want = e.out THEN {} ELSE {e.op \o " must be " \o want \o ", was " \o e.out}
CertsDiff(want, got) ==
  UNION {IF h \notin DOMAIN got THEN {h \o " is gone"} ELSE Diff(want[h], got[h], h) : h \in DOMAIN want} \cup
  {h \o " is new" : h \in DOMAIN got \ DOMAIN want}

(***************************************************************************)
(* The properties.                                                         *)
(***************************************************************************)
Base(e) == IF e.op \in {"cert"} THEN Without(certs, {e.h}) ELSE IF e.op = "adopt" THEN Without(certs, HandlesOf(e.f)) ELSE certs
JTrust(prop, e) ==
  LET x == Expect(e)
      after == After(e, Base(e)) IN
  IF e.out \in {"panic", "hang", "crash"} THEN {e.op \o ": " \o e.out}
  ELSE CASE prop = "C17" ->
         (IF e.op = "verifymany" THEN
            UNION {OutDiff(VerifyFile(e.fs[i], e.r, FALSE).out, [op |-> "verifying several files", out |-> e.outs[i]]) : i \in {j \in 1..Len(e.fs) : e.fs[j] \in DOMAIN files}}
          ELSE IF e.op # "verify" THEN {}
          ELSE OutDiff(x.out, e) \cup
               (IF e.same THEN {} ELSE {"verifying changed the file beyond its certificates"}) \cup
               {"asked for another certificate: " \o e.calls[i][3] : i \in {j \in 1..Len(e.calls) :
                   e.calls[j][2] # "root" /\ e.f # "" /\
                   e.calls[j][3] \notin {Str(Val(certs[h], "certificate_authority_reference")) : h \in HandlesOf(e.f) \cap DOMAIN certs}}} \cup
               (IF \A i \in 1..Len(e.calls) : e.calls[i][4] THEN {} ELSE {"not the context of the caller"}))
    [] prop = "C18" ->
         (IF e.op \in {"verify", "attempt", "cert", "adopt"}
          THEN (IF e.op = "attempt" THEN OutDiff(x.out, e) ELSE {}) \cup
               (IF "again" \in DOMAIN e /\ e.again # bufs[e.b] THEN {"a certificate is written back as other bytes"} ELSE {}) \cup
               CertsDiff(x.certs, after) \cup
               (IF e.op # "adopt" THEN {}
                ELSE {y[1] \o " is marked by reading alone" : y \in {z \in Changed(e) : Field(z[2], "signature_valid") \notin {None, V1(0)}}})
          ELSE {})
    [] prop = "C19" ->
         (IF e.op # "ask" THEN {}
          ELSE LET a == Resolve(e.r, e.kind, IF e.kind = "root" THEN <<"", <<>>>> ELSE <<e.ref, e.refcodes>>, Cancelled(e)) IN
               OutDiff(x.out, e) \cup CertsDiff(x.certs, after) \cup
               (IF [i \in 1..Len(e.calls) |-> SubSeq(e.calls[i], 1, 3)] = a.calls THEN {} ELSE {"the members were asked otherwise"}) \cup
               (IF \A i \in 1..Len(e.calls) : e.calls[i][4] THEN {} ELSE {"not the context of the caller"}) \cup
               (IF e.out = "ok" /\ e.nil # (a.node = None) THEN {"nothing was returned"} ELSE {}) \cup
               (IF e.out = "ok" THEN {} ELSE {"the error of a member is lost: " \o m : m \in a.errs \ Range(e.errs)}) \cup
               (IF e.out = "err" /\ Cancelled(e) /\ a.calls # <<>> /\ ~e.cancel THEN {"the cancellation is lost"} ELSE {}))
    [] prop = "C20" ->
         (IF e.op = "askmany" THEN (IF "differ" \in DOMAIN e THEN {"the same question had another answer"} ELSE {})
          ELSE IF e.op = "ask" THEN
            OutDiff(x.out, e) \cup CertsDiff(x.certs, after) \cup
            (IF e.out = "ok" /\ e.nil THEN {"neither a certificate nor an error"} ELSE {}) \cup
            (IF e.out = "err" /\ ~e.nil THEN {"a certificate and an error"} ELSE {}) \cup
            (IF "seen" \notin DOMAIN e THEN {}
             ELSE LET allowed == IF e.kind = "root" THEN {} ELSE Addresses(e.r, e.kind, e.ref) IN
                  {"requested " \o e.seen[i][2] : i \in {j \in 1..Len(e.seen) : e.seen[j][2] \notin allowed}} \cup
                  {"a request that is not a GET" : i \in {j \in 1..Len(e.seen) : e.seen[j][1] # "GET"}})
          ELSE IF e.op = "attempt" THEN OutDiff(x.out, e) \cup CertsDiff(x.certs, after)
          ELSE {})
    [] OTHER -> {}

(***************************************************************************)
(* The calls as actions: what was seen is taken for what is.               *)
(***************************************************************************)
TrustInit == bufs = Empty /\ issued = {} /\ certs = Empty /\ sources = Empty /\ files = Empty
Parts(e) == Flat([i \in 1..Len(e.parts) |-> e.parts[i].tag \o B16(Len(bufs[e.parts[i].b])) \o bufs[e.parts[i].b]])
Issue(e) ==
  LET common == [gen |-> e.gen, data |-> e.data, good |-> ~("bad" \in DOMAIN e /\ e.bad # "") \/ (e.gen = 2 /\ e.bad = "offcurve"),
                 chr |-> e.chr, car |-> e.car, eov |-> e.eov] IN
  IF e.gen = 1 THEN common @@ [by |-> <<Strip0(e.byn), Strip0(e.bye)>>, n |-> e.n, e |-> e.e]
  ELSE common @@ [by |-> <<e.oid, Strip0(e.x), Strip0(e.y)>>]
TrustStep(e) ==
  LET newbuf(b, d) == bufs' = (b :> d) @@ bufs IN
  CASE e.op = "case" -> bufs' = Empty /\ issued' = {} /\ certs' = Empty /\ sources' = Empty /\ files' = Empty
    [] e.op = "buf" -> newbuf(e.b, e.data) /\ UNCHANGED <<issued, certs, sources, files>>
    [] e.op = "mintroot" -> newbuf(e.b, e.data) /\ UNCHANGED <<issued, certs, sources, files>>
    [] e.op = "wrap" -> newbuf(e.to, Parts(e)) /\ UNCHANGED <<issued, certs, sources, files>>
    [] e.op = "copy" -> newbuf(e.to, bufs[e.b]) /\ UNCHANGED <<issued, certs, sources, files>>
    [] e.op \in {"poke", "flip"} -> newbuf(e.b, SubSeq(bufs[e.b], 1, e.at) \o e.v \o SubSeq(bufs[e.b], e.at + Len(e.v) + 1, Len(bufs[e.b])))
                        /\ UNCHANGED <<issued, certs, sources, files>>
    [] e.op = "mint" -> newbuf(e.b, e.data) /\ issued' = issued \cup {Issue(e)} /\ UNCHANGED <<certs, sources, files>>
    [] e.op = "fact" -> issued' = issued \cup {Issue(e)} /\ UNCHANGED <<bufs, certs, sources, files>>
    [] e.op = "source" -> sources' = (e.r :> [kind |-> "script", fresh |-> FieldOr(e, "fresh", 0) = 1, root |-> FieldOr(e, "root", "error"), rsa |-> FieldOr(e, "rsa", Empty), ecc |-> FieldOr(e, "ecc", Empty)]) @@ sources
                          /\ UNCHANGED <<bufs, issued, certs, files>>
    [] e.op = "chain" -> sources' = (e.r :> [kind |-> "chain", of |-> e.of]) @@ sources /\ UNCHANGED <<bufs, issued, certs, files>>
    [] e.op \in {"client", "internet"} -> sources' = ((IF e.op = "client" THEN e.r ELSE "inet") :> [kind |-> "client", web |-> e.web]) @@ sources
                          /\ UNCHANGED <<bufs, issued, certs, files>>
    [] e.op = "parse" -> files' = (IF e.out = "ok" THEN files ELSE Without(files, {e.f})) /\ UNCHANGED <<bufs, issued, certs, sources>>
    [] e.op = "adopt" -> IF e.out = "skip" THEN UNCHANGED tvars_
                         ELSE /\ files' = (e.f :> [kind |-> e.kind, apps |-> e.apps, has |-> e.has]) @@ files
                              /\ certs' = After(e, Base(e)) /\ UNCHANGED <<bufs, issued, sources>>
    [] e.op \in {"cert", "unset", "setbytes", "settext", "smudge", "attempt", "ask", "verify", "verifymany"} ->
         IF e.out = "skip" THEN UNCHANGED tvars_
         ELSE certs' = After(e, IF e.op = "ask" /\ e.out = "ok" THEN certs ELSE Base(e)) /\ UNCHANGED <<bufs, issued, sources, files>>
    [] OTHER -> UNCHANGED tvars_
====
