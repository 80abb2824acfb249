---- MODULE Bytes ----
(***************************************************************************)
(* Byte strings (sequences of 0..255), numbers in them, and the nodes in   *)
(* which the specification and the harness write down a decoded model.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sub(b, o, n) == SubSeq(b, o + 1, o + n)          \* n bytes from offset o
At(b, o) == b[o + 1]
U16(b, o) == b[o + 1] * 256 + b[o + 2]
U24(b, o) == (b[o + 1] * 256 + b[o + 2]) * 256 + b[o + 3]
\* a 32-bit number as <<high half, low half>>
U32(b, o) == <<U16(b, o), U16(b, o + 2)>>
B16(n) == <<n \div 256, n % 256>>
B24(n) == <<n \div 65536, (n \div 256) % 256, n % 256>>
B32(p) == B16(p[1]) \o B16(p[2])
Zeros(n) == [i \in 1..n |-> 0]
Rep(x, n) == [i \in 1..n |-> x]
Range(s) == {s[i] : i \in 1..Len(s)}
Force(s) == SubSeq(s, 1, Len(s))                  \* evaluate every element now
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Bit(x, k) == (x \div (2 ^ k)) % 2

RECURSIVE Flat(_)
Flat(ss) ==                                       \* concatenation, divide and conquer
  IF Len(ss) = 0 THEN <<>>
  ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE LET h == Len(ss) \div 2 IN Flat(SubSeq(ss, 1, h)) \o Flat(SubSeq(ss, h + 1, Len(ss)))
RECURSIVE SumN(_)
SumN(s) ==
  IF Len(s) = 0 THEN 0
  ELSE IF Len(s) = 1 THEN s[1]
  ELSE LET h == Len(s) \div 2 IN SumN(SubSeq(s, 1, h)) + SumN(SubSeq(s, h + 1, Len(s)))

\* packed BCD
BcdByteOk(x) == (x \div 16) <= 9 /\ (x % 16) <= 9
BcdOk(b) == \A i \in 1..Len(b) : BcdByteOk(b[i])
BcdByte(x) == (x \div 16) * 10 + (x % 16)
RECURSIVE Bcd(_)
Bcd(b) == IF Len(b) = 0 THEN 0 ELSE Bcd(SubSeq(b, 1, Len(b) - 1)) * 100 + BcdByte(b[Len(b)])
ToBcdByte(n) == (n \div 10) * 16 + (n % 10)
RECURSIVE ToBcd(_, _)
ToBcd(n, w) == IF w = 0 THEN <<>> ELSE ToBcd(n \div 100, w - 1) \o <<ToBcdByte((n % 100))>>

(***************************************************************************)
(* Nodes.  What the code produced is made of                               *)
(*   <<"m", fields>>  message: its set fields                              *)
(*   <<"l", items>>   repeated field                                       *)
(*   <<"v", ints>>    scalar                                               *)
(* What the specification expects may also say                             *)
(*   <<"n">>          not set (or an empty list)                           *)
(*   <<"a">>          anything                                             *)
(*   <<"u">>          any valid text                                       *)
(*   <<"w", ints>>    text, -1 standing for any one character              *)
(*   <<"o", alts>>    one of several                                       *)
(*   <<"r", alts>>    the input may be rejected because of this value; if  *)
(*                    it is not, one of several                            *)
(*   <<"x">>          the input must be rejected because of this value     *)
(***************************************************************************)
V(s) == <<"v", s>>
V1(n) == <<"v", <<n>>>>
Msg(f) == <<"m", f>>
Lst(s) == <<"l", s>>
None == <<"n">>
Whatever == <<"a">>
AnyText == <<"u">>
OneOf(alts) == <<"o", alts>>
MayReject(alts) == <<"r", alts>>
MustReject == <<"x">>

\* a function from a sequence of <<name, node>> pairs
Fields(pairs) ==
  [k \in {pairs[i][1] : i \in 1..Len(pairs)} |->
     pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = k][2]]

Ignored == {"raw_data", "length", "signature", "signature_verified"}

Valid(s) == -1 \notin Range(s)

\* The places where an actual node differs from an expected one: a set of
\* paths, each a string.
RECURSIVE Diff(_, _, _)
Diff(e, a, p) ==
  CASE e[1] = "a" -> {}
    [] e[1] = "n" -> IF a[1] = "n" \/ (a[1] = "l" /\ Len(a[2]) = 0) THEN {} ELSE {p}
    [] e[1] = "x" -> {p}
    [] e[1] \in {"o", "r"} ->
         IF \E i \in 1..Len(e[2]) : Diff(e[2][i], a, p) = {} THEN {}
         ELSE IF Len(e[2]) = 1 THEN Diff(e[2][1], a, p) ELSE {p}
    [] e[1] = "u" -> IF a[1] = "n" \/ (a[1] = "v" /\ Valid(a[2])) THEN {} ELSE {p}
    [] e[1] = "w" ->
         IF /\ a[1] = "v" /\ Len(a[2]) = Len(e[2]) /\ Valid(a[2])
            /\ \A i \in 1..Len(e[2]) : e[2][i] = -1 \/ e[2][i] = a[2][i]
         THEN {} ELSE {p}
    [] e[1] = "v" -> IF a[1] = "v" /\ a[2] = e[2] THEN {} ELSE {p}
    [] e[1] = "l" ->
         IF Len(e[2]) = 0 THEN (IF a[1] = "n" \/ (a[1] = "l" /\ Len(a[2]) = 0) THEN {} ELSE {p})
         ELSE IF a[1] # "l" THEN {p}
         ELSE IF Len(a[2]) # Len(e[2]) THEN {p \o "#"}
         ELSE UNION {Diff(e[2][i], a[2][i], p \o "[" \o ToString(i - 1) \o "]") : i \in 1..Len(e[2])}
    [] e[1] = "m" ->
         IF a[1] # "m" THEN {p}
         ELSE UNION {Diff(IF k \in DOMAIN e[2] THEN e[2][k] ELSE None,
                          IF k \in DOMAIN a[2] THEN a[2][k] ELSE None,
                          p \o "." \o k)
                     : k \in (DOMAIN e[2] \cup DOMAIN a[2]) \ (Ignored \ DOMAIN e[2])}

RECURSIVE Has(_, _)
Has(t, e) ==
  CASE e[1] = t -> TRUE
    [] e[1] = "l" -> \E i \in 1..Len(e[2]) : Has(t, e[2][i])
    [] e[1] = "m" -> \E k \in DOMAIN e[2] : Has(t, e[2][k])
    [] OTHER -> FALSE
\* the node below a path of field names and list positions
RECURSIVE Get(_, _)
Get(a, path) ==
  IF Len(path) = 0 THEN a
  ELSE IF a[1] = "m" THEN (IF path[1] \in DOMAIN a[2] THEN Get(a[2][path[1]], Tail(path)) ELSE None)
  ELSE None
====
