---- MODULE MC_Ring ----
(***************************************************************************)
(* The card's side of the activity ring: a card that records days, lets    *)
(* the present day grow and gives up its oldest days when room runs out,   *)
(* one write at a time.  Whoever reads the file between any two writes     *)
(* must find exactly the days the card holds.                              *)
(***************************************************************************)
EXTENDS Activity, Json, IOUtils
Size == atoi(IOEnv.SIZE)
Depth == atoi(IOEnv.DEPTH)
Grown == 16                          \* how long a day may become

VARIABLES ring, oldest, newest,      \* the file
          days,                      \* the days held, oldest first: [p |-> position, b |-> bytes after the first two]
          todo,                      \* what is under way
          n                          \* days and changes so far
vars == <<ring, oldest, newest, days, todo, n>>

Put(r, p, b) == [i \in 1..Len(r) |->
  LET k == (i - 1 - p + 2 * Len(r)) % Len(r) IN IF k < Len(b) THEN b[k + 1] ELSE r[i]] \o <<>>
Last(s) == s[Len(s)]
Size2(d) == Len(d.b) + 2
Used == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE Size2(days[k]) + S(k - 1) IN S(Len(days))
Room == Size - Used
Free == IF days = <<>> THEN 0 ELSE (Last(days).p + Size2(Last(days))) % Size
Content(k, len) == B16(len) \o <<96, 0, 0, k>> \o <<0, k % 10>> \o B16(300 + k) \o Force([i \in 1..(len - 12) |-> (k * 16 + i) % 256])

Init == /\ ring = Rep(0, Size) \o <<>> /\ oldest = 0 /\ newest = 0 /\ days = <<>> /\ todo = <<"idle">> /\ n = 0
\* a new day is to be recorded, or the present one grows by a change
Begin ==
  /\ todo = <<"idle">> /\ n < Depth
  /\ n' = n + 1
  /\ \/ \E len \in {12, 14} : len <= Size /\ todo' = <<"day", len, n'>>
     \/ days # <<>> /\ Size2(Last(days)) < Grown /\ Size2(Last(days)) + 2 <= Size /\ todo' = <<"grow", 2, n'>>
  /\ UNCHANGED <<ring, oldest, newest, days>>
Needed == IF todo[1] \in {"day", "grow"} THEN todo[2] ELSE 0
\* the oldest day is given up: the one after it becomes the oldest, in one write of its link
GiveUp ==
  /\ todo[1] \in {"day", "grow"} /\ Room < Needed
  /\ Len(days) > 1
  /\ ring' = Put(ring, days[2].p, <<0, 0>>)
  /\ days' = Tail(days)
  /\ UNCHANGED <<oldest, newest, todo, n>>
\* the day that is the only one left is given up with everything: the new one starts afresh
GiveUpAll ==
  /\ todo[1] = "day" /\ Room < Needed /\ Len(days) = 1
  /\ ring' = Put(ring, days[1].p, <<0, 0, 0, 0>>)
  /\ days' = <<>>
  /\ UNCHANGED <<oldest, newest, todo, n>>
MovePointer ==
  /\ days # <<>> /\ oldest # days[1].p /\ todo = <<"idle">>
  /\ oldest' = days[1].p
  /\ UNCHANGED <<ring, newest, days, todo, n>>
\* the record is written where nothing is, then the pointer is moved to it
WriteDay ==
  /\ todo[1] = "day" /\ Room >= Needed
  /\ LET d == [p |-> IF days = <<>> THEN newest ELSE Free, b |-> Content(todo[3], todo[2])] IN
     IF days = <<>> THEN
       \* nothing is held: the pointer already leads to where the day comes, which is written last byte first
       /\ ring' = Put(ring, d.p, <<0, 0>> \o d.b)
       /\ days' = <<d>>
       /\ todo' = <<"idle">>
     ELSE
       /\ ring' = Put(ring, d.p, B16(Size2(Last(days))) \o d.b)
       /\ todo' = <<"point", d>>
       /\ UNCHANGED days
  /\ UNCHANGED <<oldest, newest, n>>
Point ==
  /\ todo[1] = "point"
  /\ newest' = todo[2].p
  /\ days' = Append(days, todo[2])
  /\ todo' = <<"idle">>
  /\ UNCHANGED <<ring, oldest, n>>
\* the change goes behind the day, which then is said to be longer
WriteChange ==
  /\ todo[1] = "grow" /\ Room >= 2
  /\ ring' = Put(ring, Free, <<64 + todo[3], todo[3]>>)
  /\ todo' = <<"longer", <<64 + todo[3], todo[3]>>>>
  /\ UNCHANGED <<oldest, newest, days, n>>
Longer ==
  /\ todo[1] = "longer"
  /\ LET d == Last(days) len == Size2(d) + 2 nd == [d EXCEPT !.b = B16(len) \o SubSeq(@, 3, Len(@)) \o todo[2]] IN
     /\ ring' = Put(ring, d.p + 2, B16(len))
     /\ days' = [days EXCEPT ![Len(days)] = nd]
  /\ todo' = <<"idle">>
  /\ UNCHANGED <<oldest, newest, n>>
\* a day that cannot grow because it fills the ring stays as it is
Refuse ==
  /\ todo[1] = "grow" /\ Room < 2 /\ Len(days) = 1
  /\ todo' = <<"idle">> /\ UNCHANGED <<ring, oldest, newest, days, n>>
Next == Begin \/ GiveUp \/ GiveUpAll \/ MovePointer \/ WriteDay \/ Point \/ WriteChange \/ Longer \/ Refuse
File == B16(oldest) \o B16(newest) \o ring
Spec == Init /\ [][Next /\ PrintT("CASE " \o ToJson([file |-> (B16(oldest') \o B16(newest') \o ring'), held |-> Len(days')]))]_vars /\ WF_vars(Next)

Held == [i \in 1..Len(days) |-> days[i].b]
Shown == IF ActEmpty(File) THEN <<>>
         ELSE LET c == ActChain(File).recs m == Len(c) IN
              [i \in 1..m |-> SubSeq(Ring(ring, c[m + 1 - i][1], c[m + 1 - i][2]), 3, c[m + 1 - i][2])]
\* what a reader finds is what the card holds, between any two writes
ReadsWhatIsHeld == Shown \o <<>> = Held \o <<>>
\* and the reader is never in doubt
NoDoubt == ActEmpty(File) \/ ActMust(File)
\* the days held are always the newest ones, without a gap
NewestOnes == \A i \in 1..(Len(days) - 1) : (days[i].p + Size2(days[i])) % Size = days[i + 1].p
\* every day begun is recorded in the end
Settles == [](todo # <<"idle">> => <>(todo = <<"idle">>))
====
