------------------------------ MODULE StunItem -----------------------------
(***************************************************************************)
(* The codecs of single values: socket addresses (type 0), and the values  *)
(* of one attribute type or of the types of an attribute set, decoded from *)
(* and encoded to byte streams on their own.  A value decoder does not     *)
(* unmask addresses: that needs a message.                                 *)
(*                                                                         *)
(* An item is                                                              *)
(*   m     "one" type, or a "set" of types                                 *)
(*   c, k  the type to decode and its kind; the decoder of a set is told   *)
(*         the type before each value: k = "none" if it has not been       *)
(*   t     "ok"; "dead" once it is not known any more what it does         *)
(*   buf   the bytes of the value so far, and end: whether the stream was  *)
(*         declared over, which is what ends values of any length          *)
(*   et, pend, e0  the encoder: "ok" or "dead", the bytes to come, and     *)
(*         whether a value of no bytes was started that has not been       *)
(*         pulled; whether that counts as idle is left open                *)
(*   last  the value decoded last: << its kind, the value >>               *)
(***************************************************************************)
EXTENDS StunWire

ItemKind(c) == IF c = 0 THEN "addr" ELSE IF Kind[c] = "xaddr" THEN "addr" ELSE Kind[c]
KindInSet(set, c) == LET k == KindIn(set, c) IN IF k = "xaddr" THEN "addr" ELSE k
FixedLen(kind) ==
  CASE kind = "mi" -> 20
    [] kind \in {"fp", "u32", "change", "chan", "proto", "port", "family"} -> 4
    [] kind = "u64" -> 8 [] kind = "even" -> 1 [] kind = "empty" -> 0
    [] OTHER -> -1

\* Bytes still needed: -1 "all there are", -2 the bytes so far are no value's.
ItemNeed(kind, buf) ==
  IF kind = "addr"
  THEN IF Len(buf) < 2 THEN 4 - Len(buf)
       ELSE IF buf[2] = 1 THEN 8 - Len(buf) ELSE IF buf[2] = 2 THEN 20 - Len(buf) ELSE -2
  ELSE IF FixedLen(kind) >= 0 THEN FixedLen(kind) - Len(buf) ELSE -1

\* The bytes of b the decoder takes after buf.
ItemTake(kind, buf, b) ==
  IF kind = "addr"
  THEN LET h == Take(b, Min2(Len(b), Max2(0, 2 - Len(buf))))
           n == ItemNeed(kind, buf \o h)
       IN IF Len(buf \o h) < 2 \/ n < 0 THEN h ELSE Take(b, Min2(Len(b), Len(h) + n))
  ELSE IF FixedLen(kind) >= 0 THEN Take(b, Min2(Len(b), FixedLen(kind) - Len(buf)))
  ELSE b
\* What was declared over takes nothing more.
ItemTakes(it, b) == IF it.end /\ ItemNeed(it.k, it.buf) = -1 THEN << >> ELSE ItemTake(it.k, it.buf, b)

\* Asked for a type, the decoder of a set begins anew, whatever it left unfinished; that of raw attributes, and that
\* of a single type used as a set, need not.
Anew(set) == set \notin {"raw", "one"}

ItemReady(it) ==
  LET n == ItemNeed(it.k, it.buf)
  IN IF n = -1 THEN it.end ELSE n = 0 /\ (it.k = "addr" => Len(it.buf) >= 2)
ItemVal(it) == DecVal(it.k, it.buf, 1, Len(it.buf), Zeros(12))

\* The stream is declared over before the value is complete.
ItemTruncated(kind, x, eos) ==
  LET n == ItemNeed(kind, x)
  IN eos # -1 /\ n >= 0 /\ n > (IF eos = -2 THEN 0 ELSE eos)

\* Bytes of values of any length, which may end within a character, that more bytes can make a value.
MayBecome(kind, x) ==
  LET whole(y, i) == \E j \in 0..Min2(3, Len(y) - i + 1) : CharCountFrom(Take(y, Len(y) - j), i) \in 0..127
      utf8(y, i) == \E j \in 0..Min2(3, Len(y) - i + 1) : CharCountFrom(Take(y, Len(y) - j), i) >= 0
  IN CASE kind = "text" -> whole(x, 1)
       [] kind = "name" -> Len(x) < 513 /\ utf8(x, 1)
       [] kind = "err" -> Len(x) < 4 \/ ((x[3] % 8) \in 3..5 /\ x[4] < 100 /\ utf8(x, 5))
       [] OTHER -> TRUE

\* What is known of a call that gives the decoder b: "taken" takes ItemTakes, "refused" is an error at the latest
\* with the fourth byte, and "open" takes no more than ItemTakes, if it is no error.
FeedSays(it, b, eos) ==
  LET y == it.buf \o ItemTakes(it, b)
      n == ItemNeed(it.k, y)
  IN CASE n = -2 -> "refused"
       [] ItemTruncated(it.k, y, eos) -> "open"
       [] OTHER -> IF (IF n = -1 /\ ~(it.end \/ eos \in {-2, 0}) THEN ~MayBecome(it.k, y)
                       ELSE n <= 0 /\ DecVal(it.k, y, 1, Len(y), Zeros(12)) = Bad)
                   THEN "open" ELSE "taken"
=============================================================================
