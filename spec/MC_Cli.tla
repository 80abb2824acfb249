---- MODULE MC_Cli ----
(* Every argument list over the kinds of things an argument can name, taken *)
(* step by step; every one is written down to be given to the real command. *)
EXTENDS Cli, Json, IOUtils
Scope == JsonDeserialize(IOEnv.SCOPE)     \* args: length of the lists
Kinds == {"card", "unit", "junk", "empty", "missing", "dir", "--", "-x"}
Doc(k) == [kind |-> CASE k \in {"card", "unit", "-x"} -> "good" [] k \in {"junk", "empty"} -> "bad" [] OTHER -> "none", doc |-> k]

VARIABLES args, inv
mvars == <<args, inv, cvars>>
MInit == /\ args \in UNION {[1..n -> Kinds] : n \in 0..Scope.args}
         /\ things = [k \in Kinds \ {"missing", "--"} |-> Doc(k)]
         /\ inv = Begin([i \in DOMAIN args |-> [name |-> args[i], flag |-> args[i] = "-x"]])
         /\ PrintT("CASE " \o ToJson([args |-> args]))
MNext == inv.ended = "no" /\ inv' = Step(inv) /\ UNCHANGED <<args, cvars>>
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

NamedHere == Named([i \in DOMAIN args |-> [name |-> args[i], flag |-> args[i] = "-x"]], FALSE)
Good(n) == n \in DOMAIN things /\ things[n].kind = "good"
\* what the property says, in one go
PrintedIsPrefix == \A i \in 1..Len(inv.printed) : Good(NamedHere[i]) /\ inv.printed[i] = things[NamedHere[i]].doc
SuccessIsComplete == inv.ended = "done" => inv.printed = [i \in DOMAIN NamedHere |-> NamedHere[i]] /\ NamedHere # <<>>
FailureIsFirst ==
  inv.ended = "failed" /\ inv.blame # "" =>
    LET k == Len(inv.printed) + 1 IN inv.blame = NamedHere[k] /\ ~Good(NamedHere[k]) /\ \A i \in 1..(k - 1) : Good(NamedHere[i])
Ends == <>(inv.ended # "no")
====
