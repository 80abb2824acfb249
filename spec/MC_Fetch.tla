---- MODULE MC_Fetch ----
(* A list of certificates fetched by a number of workers: rows are taken up  *)
(* in order while a worker is free and finish in any order, well or badly.   *)
(* Finished certificates are stored under the name of their holder, which    *)
(* two of them may share, and entered in the index.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Scope == JsonDeserialize(IOEnv.SCOPE)     \* rows: how many; holders: how many different
Rows == 1..Scope.rows
Fates == {"ok", "bad"}

VARIABLES fate, holder, limit,     \* what is published, and how many at once
          next, active, order,     \* the run so far
          index, store             \* what it has produced
vars == <<fate, holder, limit, next, active, order, index, store>>

\* the first free name for a holder
Used == {s[1] : s \in store}
Name(h) == IF <<h, 0>> \notin Used THEN <<h, 0>> ELSE <<h, CHOOSE n \in 1..Scope.rows : <<h, n>> \notin Used /\ \A m \in 1..(n - 1) : <<h, m>> \in Used>>
Init ==
  /\ fate \in [Rows -> Fates] /\ holder \in [Rows -> 1..Scope.holders] /\ limit \in 1..Scope.rows
  /\ \A i \in Rows : fate[i] = "bad" => holder[i] = 1
  /\ next = 1 /\ active = {} /\ order = <<>> /\ index = {} /\ store = {}
Start == /\ next \in Rows /\ Cardinality(active) < limit
         /\ active' = active \cup {next} /\ next' = next + 1
         /\ UNCHANGED <<fate, holder, limit, order, index, store>>
Finish(i) ==
  /\ i \in active /\ active' = active \ {i} /\ order' = Append(order, i)
  /\ IF fate[i] = "bad" THEN UNCHANGED <<index, store>>
     ELSE LET n == Name(holder[i]) IN index' = index \cup {<<i, n>>} /\ store' = store \cup {<<n, i>>}
  /\ UNCHANGED <<fate, holder, limit, next>>
Over == next \notin Rows /\ active = {}
Next == Start \/ \E i \in Rows : Finish(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Told == Over => PrintT("CASE " \o ToJson([fate |-> fate, holder |-> holder, limit |-> limit, order |-> order]))
WithinLimit == Cardinality(active) <= limit
OneEach == Over => /\ {x[1] : x \in index} = {i \in Rows : fate[i] = "ok"}
                   /\ Cardinality(index) = Cardinality({x[1] : x \in index})
StoredTruly == /\ \A x \in index : <<x[2], x[1]>> \in store
               /\ \A a, b \in store : a[1] = b[1] => a = b
               /\ Cardinality(store) = Cardinality(index)
Ends == <>Over
====
