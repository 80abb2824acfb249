---- MODULE MC_Transfers ----
(* Every sequence of up to DEPTH transfers, as a download grows. *)
EXTENDS Vu, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLE ts
Init == ts = <<>>
Next == /\ Len(ts) < Depth
        /\ \E i \in 1..Len(Transfers) :
             /\ ts' = Append(ts, [x |-> Transfers[i], v |-> <<>>])
             /\ PrintT("CASE " \o ToJson([tags |-> [k \in 1..Len(ts') |-> ts'[k].x.tag],
                    uniform |-> VuUniform(ts'), gen |-> VuGen(ts'), ver |-> VuVer(ts')]))
Spec == Init /\ [][Next]_ts
\* what the classification promises
Uniform == \A i \in 1..Len(ts) : VuUniform(ts) => (ts[i].x.gen = VuGen(ts) /\ ts[i].x.what # "card_download")
\* one foreign transfer spoils the download for good
Poison == [][(Len(ts) > 0 /\ ~VuUniform(ts) /\ VuUniform(ts')) =>
             \* ... except that a later V2 transfer makes V2 what was no V1 download
             (VuVer(ts) = 1 /\ VuVer(ts') = 2)]_ts
====
