---- MODULE MC_Alias ----
(* Every history of `depth` calls over two buffers and two files: reading,  *)
(* writing, overwriting buffers the caller owns, scribbling over a file's   *)
(* bytes, displaying and storing.  Contents are symbols: what counts is     *)
(* what each call may change.                                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Scope == JsonDeserialize(IOEnv.SCOPE)     \* depth
Bufs == {"a", "b"}
Hs == {"f", "g"}
VARIABLES bufs, files, hist
vars == <<bufs, files, hist>>
None == <<"none">>

Init == bufs = [x \in Bufs |-> <<x>>] /\ files = [h \in Hs |-> None] /\ hist = <<>>
Did(c) == hist' = Append(hist, c)
Parse(x, h) == files' = [files EXCEPT ![h] = <<"read", bufs[x]>>] /\ UNCHANGED bufs /\ Did([op |-> "parse", b |-> x, f |-> h])
Marshal(h, x) == files[h] # None /\ bufs' = [bufs EXCEPT ![x] = <<"written", files[h]>>] /\ UNCHANGED files
                 /\ Did([op |-> "marshal", f |-> h, b |-> x])
Fill(x, v) == bufs[x] # <<"fill", v>> /\ bufs' = [bufs EXCEPT ![x] = <<"fill", v>>] /\ UNCHANGED files /\ Did([op |-> "fill", b |-> x, v |-> v])
Scribble(h) == files[h] # None /\ files[h][1] # "scribbled" /\ files' = [files EXCEPT ![h] = <<"scribbled", @>>] /\ UNCHANGED bufs
               /\ Did([op |-> "scribble", f |-> h])
Display(h) == files[h] # None /\ UNCHANGED <<bufs, files>> /\ Did([op |-> "display", f |-> h])
Store(h, k) == files[h] # None /\ h # k /\ files' = [files EXCEPT ![k] = files[h]] /\ UNCHANGED bufs
               /\ Did([op |-> "store", f |-> h, g |-> k, via |-> "pb"])
Next == /\ Len(hist) < Scope.depth
        /\ \/ \E x \in Bufs, h \in Hs : Parse(x, h) \/ Marshal(h, x)
           \/ \E x \in Bufs : Fill(x, 0)
           \/ \E h \in Hs : Scribble(h) \/ Display(h)
           \/ \E h \in Hs, k \in Hs : Store(h, k)
        /\ IF Len(hist') < Scope.depth THEN TRUE ELSE PrintT("CASE " \o ToJson([calls |-> hist']))
Spec == Init /\ [][Next]_vars

Last == hist'[Len(hist')]
\* a file changes only by a call that is given that file to change
FilesIndependent == [][\A h \in Hs : files'[h] # files[h] =>
   \/ Last.op \in {"parse", "scribble"} /\ Last.f = h
   \/ Last.op = "store" /\ Last.g = h]_vars
\* a buffer changes only when the caller writes into it or has it written to
BufsIndependent == [][\A x \in Bufs : bufs'[x] # bufs[x] => Last.op \in {"fill", "marshal"} /\ Last.b = x]_vars
\* what a file holds is a matter of the bytes it was read from alone
Deterministic == \A h \in Hs, k \in Hs : (files[h][1] = "read" /\ files[k][1] = "read" /\ files[h][2] = files[k][2]) => files[h] = files[k]
====
