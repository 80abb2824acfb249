---- MODULE MC_Chain ----
(* Chains of sources of certificates, one inside another: every member has  *)
(* an answer, no answer, or an empty one.  The operator that says what a    *)
(* chain answers is checked against the law of the property, and every      *)
(* chain is written down to be asked in the real code.                      *)
EXTENDS Trust
Scope == JsonDeserialize(IOEnv.SCOPE)     \* plain: members of a flat chain; nested: members of a chain with chains in it
Outs == {"ok", "nil", "error"}
Flats(n) == UNION {[1..k -> Outs] : k \in 0..n}
Members == {<<"leaf", o>> : o \in Outs} \cup {<<"chain", s>> : s \in Flats(2)}
Chains == {[i \in DOMAIN s |-> <<"leaf", s[i]>>] : s \in Flats(Scope.plain)} \cup UNION {[1..k -> Members] : k \in 0..Scope.nested}

VARIABLE chain
\* the chain as sources: leaf i of the chain is named after its place
Name(i, j) == "s" \o ToString(i) \o (IF j = 0 THEN "" ELSE "_" \o ToString(j))
Leaf(o, n) == LET h == "c" \o n IN
  [kind |-> "script", fresh |-> FALSE, root |-> IF o = "ok" THEN h ELSE o, rsa |-> ("*" :> IF o = "ok" THEN h ELSE o), ecc |-> ("*" :> IF o = "ok" THEN h ELSE o)]
RECURSIVE Merge(_)
Merge(s) == IF s = <<>> THEN Empty ELSE s[1] @@ Merge(Tail(s))
SourcesOf(c) ==
  ("top" :> [kind |-> "chain", of |-> [i \in 1..Len(c) |-> Name(i, 0)]]) @@
  Merge([i \in 1..Len(c) |-> IF c[i][1] = "leaf" THEN Name(i, 0) :> Leaf(c[i][2], Name(i, 0))
                             ELSE (Name(i, 0) :> [kind |-> "chain", of |-> [j \in 1..Len(c[i][2]) |-> Name(i, j)]]) @@
                                  Merge([j \in 1..Len(c[i][2]) |-> Name(i, j) :> Leaf(c[i][2][j], Name(i, j))])])
\* the leaves in order
Leaves(c) == Flat([i \in 1..Len(c) |-> IF c[i][1] = "leaf" THEN <<<<Name(i, 0), c[i][2]>>>>
                                       ELSE [j \in 1..Len(c[i][2]) |-> <<Name(i, j), c[i][2][j]>>]])
MInit == /\ chain \in Chains
         /\ sources = SourcesOf(chain)
         /\ certs = [h \in {"c" \o n : n \in DOMAIN SourcesOf(chain)} |-> V(<<h>>)]
         /\ bufs = Empty /\ issued = {} /\ files = Empty
         /\ PrintT("CASE " \o ToJson([chain |-> chain]))
MNext == FALSE /\ UNCHANGED <<chain, tvars_>>
MSpec == MInit /\ [][MNext]_<<chain, tvars_>>

Names(s) == [i \in 1..Len(s) |-> s[i][1]]
\* the law: in order, up to and including the first that does not fail
Law ==
  LET l == Leaves(chain)
      good == {i \in 1..Len(l) : l[i][2] # "error"}
      first == IF good = {} THEN Len(l) ELSE CHOOSE i \in good : \A j \in good : i <= j
      a == Resolve("top", "rsa", <<"7", <<55>>>>, FALSE) IN
  /\ (a.out = "ok") = (good # {})
  /\ [i \in 1..Len(a.calls) |-> a.calls[i][1]] = Names(SubSeq(l, 1, first))
  /\ \A i \in 1..Len(a.calls) : a.calls[i][2] = "rsa" /\ a.calls[i][3] = "7"
  /\ a.out = "ok" => a.h = (IF l[first][2] = "ok" THEN "c" \o l[first][1] ELSE "")
  /\ a.out = "err" => a.errs = Range(Names(l))
\* cancelled: nobody answers, everybody may be asked
LawCancelled == LET a == Resolve("top", "ecc", <<"7", <<55>>>>, TRUE) IN a.out = "err" /\ Len(a.calls) = Len(Leaves(chain))
====
