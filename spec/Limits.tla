---- MODULE Limits ----
(***************************************************************************)
(* What every call owes its caller, whatever the input (C15): it comes to  *)
(* an end, with a result or an error, at a cost in proportion to the size  *)
(* of what it was given.                                                   *)
(*                                                                         *)
(* The state is how much the caller put in: the size of each buffer and of *)
(* what each file was made from.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES size,      \* buffer -> bytes
          from       \* file -> bytes it was made from
lvars == <<size, from>>
Empty == [k \in {} |-> 0]
LInit == size = Empty /\ from = Empty

\* allowed: so many bytes for each byte given, and so many KiB for the call itself
PerByte(op) == IF op \in {"display", "display slow", "store", "store slow", "anon", "anon slow", "anonall", "anonall slow"} THEN 4000 ELSE IF op \in {"marshal", "marshal slow"} THEN 1500 ELSE 400
Kib(op) == IF op \in {"parse", "store", "anon", "anonall", "rsa", "ecc", "root"} THEN 400 ELSE 4000
\* and so many milliseconds for each KiB and for the call
PerMs == 10
Ms == 8000
Allowed(op, n) == Kib(op) + (n \div 1024 + 1) * PerByte(op)
AllowedMs(n) == Ms + (n \div 1024) * PerMs

Ending(e, op) == IF e.out \in {"ok", "err"} THEN {} ELSE {op \o ": " \o e.out}
Costs(op, n, kib, ms) ==
  (IF kib <= Allowed(op, n) THEN {} ELSE {op \o ": memory out of proportion"}) \cup
  (IF ms <= AllowedMs(n) THEN {} ELSE {op \o ": time out of proportion"})

Given(e) ==
  IF "b" \in DOMAIN e /\ e.op \in {"parse"} THEN size[e.b]
  ELSE IF "f" \in DOMAIN e /\ e.f \in DOMAIN from THEN from[e.f] ELSE 0
JLimits(e) ==
  IF e.out = "skip" THEN {}
  ELSE IF e.op \in {"abuse", "abusecerts"} THEN
    IF e.out # "ok" THEN {e.op \o ": " \o e.out}
    ELSE UNION {Ending(e.bad[i], e.bad[i].op) : i \in 1..Len(e.bad)} \cup
         UNION {Costs(e.costs[i].op, e.costs[i].size, e.costs[i].kib, e.costs[i].ms) : i \in 1..Len(e.costs)}
  ELSE Ending(e, e.op) \cup
       (IF "kib" \in DOMAIN e THEN Costs(e.op, Given(e), e.kib, e.ms) ELSE {}) \cup
       (IF e.op = "parse" /\ e.out \in {"ok", "err"} /\ (e.out = "ok") = e.nilfile THEN {"parse: " \o (IF e.out = "ok" THEN "neither a file nor an error" ELSE "a file and an error")} ELSE {})

LStep(e) ==
  LET lose(f, k) == [x \in DOMAIN f \ {k} |-> f[x]] IN
  CASE e.op = "case" -> size' = Empty /\ from' = Empty
    [] e.op = "buf" -> size' = (e.b :> Len(e.data)) @@ size /\ UNCHANGED from
    [] e.op = "mint" -> size' = (e.b :> Len(e.data)) @@ size /\ UNCHANGED from
    [] e.op = "spread" -> size' = (e.to :> e.len) @@ size /\ UNCHANGED from
    [] e.op = "parse" -> from' = (IF e.out = "ok" THEN (e.f :> size[e.b]) @@ from ELSE lose(from, e.f)) /\ UNCHANGED size
    [] e.op = "marshal" /\ "b" \in DOMAIN e /\ e.out # "skip" -> size' = (IF e.out = "ok" THEN (e.b :> Len(e.data)) @@ size ELSE lose(size, e.b)) /\ UNCHANGED from
    [] e.op \in {"store", "anon"} -> from' = (IF e.out = "ok" /\ e.f \in DOMAIN from THEN (e.g :> from[e.f]) @@ from ELSE lose(from, e.g)) /\ UNCHANGED size
    [] OTHER -> UNCHANGED lvars
====
