---- MODULE MC_Assemble ----
(* Every sequence of up to `depth` records over the given files: how a driver *)
(* card download is put together.  Contents are letters; what counts is       *)
(* which record ends up where.                                                *)
EXTENDS Card, Json, IOUtils
Scope == JsonDeserialize(IOEnv.SCOPE)   \* fids, apps, data, sigs (letters), depth, same (files equal), print

VARIABLE recs
LettersOf(a) == IF a % 2 = 0 THEN Scope.data ELSE Scope.sigs
Records1 == UNION {{[fid |-> Scope.fids[i], app |-> Scope.apps[k], v |-> LettersOf(Scope.apps[k])[l]]
                     : l \in 1..Len(LettersOf(Scope.apps[k]))} : i \in 1..Len(Scope.fids), k \in 1..Len(Scope.apps)}
Ok(rs) == Assemble(rs).ok
Card0(rs) == Assemble(rs).card
Init == recs = <<>>
Next == /\ Len(recs) < Scope.depth
        /\ \E r \in Records1 :
             /\ Scope.same => \A i \in 1..Len(recs) : recs[i].fid = r.fid
             /\ recs' = Append(recs, r)
             /\ IF Len(recs') < Scope.min THEN TRUE
                ELSE PrintT("CASE " \o ToJson([recs |-> recs', ok |-> Ok(recs')]))
Spec == Init /\ [][Next]_recs

\* the last data record of each place is what the card holds, with the signature right behind it
LastAt(p) == CHOOSE i \in 1..Len(recs) : ~IsSig(recs[i]) /\ PlaceOf(recs[i]) = p /\
                 \A j \in (i + 1)..Len(recs) : IsSig(recs[j]) \/ PlaceOf(recs[j]) # p
LastWins == Ok(recs) =>
  /\ DOMAIN Card0(recs) = {PlaceOf(recs[i]) : i \in {j \in 1..Len(recs) : ~IsSig(recs[j]) /\ Modelled(recs[j].fid)}}
  /\ \A p \in DOMAIN Card0(recs) :
       LET k == LastAt(p) c == Card0(recs)[p] IN
       /\ c.v = recs[k].v
       /\ c.sig = (IF k < Len(recs) /\ SigOf(recs[k], recs[k + 1]) THEN <<recs[k + 1].v>> ELSE <<>>)
\* signatures are used up: as many signature records as data records they follow
NoLoneSignature == Ok(recs) => \A i \in 1..Len(recs) : IsSig(recs[i]) => i > 1 /\ ~IsSig(recs[i - 1]) /\ SigOf(recs[i - 1], recs[i])
\* nothing that comes later repairs a download
Poison == [][~Ok(recs) => ~Ok(recs')]_recs
\* two neighbours of different places may change places
Swap(i) == [j \in 1..Len(recs) |-> IF j = i THEN recs[i + 1] ELSE IF j = i + 1 THEN recs[i] ELSE recs[j]]
Permutes == \A i \in 1..(Len(recs) - 1) :
  (/\ \A j \in 1..Len(recs) : ~IsSig(recs[j])
   /\ PlaceOf(recs[i]) # PlaceOf(recs[i + 1]))
  => (Ok(recs) <=> Ok(Swap(i))) /\ (Ok(recs) => Card0(recs) = Card0(Swap(i)))
====
