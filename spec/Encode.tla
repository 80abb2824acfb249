---- MODULE Encode ----
(***************************************************************************)
(* Writing a file whose values may not fit (C23).  Whether a value can be  *)
(* written is the writer's decision; but what is written must say what the *)
(* file said: no value is cut, wrapped round or replaced.                  *)
(***************************************************************************)
EXTENDS Edit

RECURSIVE Default(_)
Default(n) ==
  CASE n[1] = "n" -> TRUE
    [] n[1] = "v" -> \A i \in 1..Len(n[2]) : n[2][i] = 0
    [] n[1] = "l" -> Len(n[2]) = 0
    [] n[1] = "m" -> \A k \in DOMAIN n[2] : Default(n[2][k])
\* what a record remembers, and what follows from the rest of the record
Derived == {"raw_data", "length", "signature_verified", "file", "content_type", "generation", "card_type",
            "activity_previous_record_length", "activity_record_length", "oldest_day_record_index", "newest_day_record_index"}
FieldOf(n, k) == IF n[1] = "m" /\ k \in DOMAIN n[2] THEN n[2][k] ELSE None
NamesOf(n) == IF n[1] = "m" THEN DOMAIN n[2] ELSE {}
TextLike(n) == n[1] = "m" /\ "value" \in DOMAIN n[2] /\ DOMAIN n[2] \subseteq {"value", "encoding", "raw_data", "length"}
TrimmedText(n) == IF n[1] = "v" THEN Trim(n[2]) ELSE <<>>
Bytes_(n) == IF n[1] = "v" THEN n[2] ELSE <<>>
\* the bytes of a text take precedence over its value; the code page may be painted anew
SameText(c, g) ==
  LET cr == Bytes_(FieldOf(c, "raw_data")) gr == Bytes_(FieldOf(g, "raw_data")) cv == Bytes_(FieldOf(c, "value")) gv == Bytes_(FieldOf(g, "value")) IN
  \/ Trim(cv) = Trim(gv) \/ cv = gv
  \/ cr # <<>> /\ (cr = gr \/ (Len(cr) = Len(gr) /\ Tail(cr) = Tail(gr)))
\* what a missing part may be written as: nothing, blanks, the first index, the first code of an enumeration
RECURSIVE Filler(_)
Filler(n) ==
  CASE n[1] = "n" -> TRUE
    [] n[1] = "l" -> Len(n[2]) = 0
    [] n[1] = "v" -> Len(n[2]) > 0 /\ n[2][Len(n[2])] <= 2 /\ \A i \in 1..Len(n[2]) - 1 : n[2][i] = 0
    [] n[1] = "m" -> IF TextLike(n) THEN TrimmedText(FieldOf(n, "value")) \in {<<>>, <<48>>} ELSE \A k \in DOMAIN n[2] : Filler(n[2][k]) \/ Default(n[2][k])
\* where what was read back (g) disagrees with what was written (c)
RECURSIVE Agree(_, _, _)
Agree(c, g, p) ==
  IF Default(c) /\ Default(g) THEN {}
  ELSE IF c = None /\ Filler(g) THEN {}
  ELSE IF c[1] = "l" \/ g[1] = "l" THEN
    LET x == IF c[1] = "l" THEN c[2] ELSE <<>> y == IF g[1] = "l" THEN g[2] ELSE <<>> IN
    IF Len(x) # Len(y) THEN {p \o "#"} ELSE UNION {Agree(x[i], y[i], p \o "[" \o ToString(i - 1) \o "]") : i \in 1..Len(x)}
  ELSE IF c[1] = "m" \/ g[1] = "m" THEN
    (IF TextLike(c) \/ TextLike(g) THEN
       (IF SameText(c, g) THEN {} ELSE {p \o ".value"}) \cup
       (IF FieldOf(c, "raw_data") # None \/ TrimmedText(FieldOf(g, "value")) = <<>> THEN {} ELSE Agree(FieldOf(c, "encoding"), FieldOf(g, "encoding"), p \o ".encoding"))
     ELSE IF {"certificate_holder_reference", "certificate_authority_reference"} \cap (NamesOf(c) \cup NamesOf(g)) # {}
     THEN IF FieldOf(c, "raw_data") = FieldOf(g, "raw_data") THEN {} ELSE {p \o ".raw_data"}
     ELSE UNION {Agree(FieldOf(c, k), FieldOf(g, k), p \o "." \o k) : k \in (NamesOf(c) \cup NamesOf(g)) \ Derived})
  ELSE IF c = g THEN {} ELSE {p}

\* more elements or bytes than any length field can express
Mutate2(f, e) == files' = [files EXCEPT ![f] = [big |-> "big" \in DOMAIN e] @@ Lost(@)] /\ UNCHANGED <<bufs, learned>>
JEncode(e) ==
  CASE e.out \in {"panic", "crash", "hang"} -> {e.op \o ": " \o e.out}
    [] e.op = "parse" ->
         IF bufs[e.b].claim = <<>> \/ bufs[e.b].claim[1].how # "view" THEN {}
         ELSE IF e.out # "ok"
         THEN IF "raw_card" \in DOMAIN bufs[e.b].claim[1].view[2] /\ Outcome(bufs[e.b].data) = "err" THEN {} ELSE {"what was written cannot be read"}
         ELSE {"written as something else: " \o x : x \in Agree(bufs[e.b].claim[1].view, e.view, "")}
    [] e.op = "marshal" /\ "big" \in DOMAIN files[e.f] ->
         IF files[e.f].big /\ e.out = "ok" THEN {"written though it cannot fit"} ELSE {}
    [] OTHER -> {}
====
