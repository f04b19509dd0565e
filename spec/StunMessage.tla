----------------------------- MODULE StunMessage ---------------------------
(***************************************************************************)
(* Messages, their encoding and the meaning of a packet.                   *)
(*                                                                         *)
(* A message is [cl, me, tx, at]: class 0..3, method 0..4095, 12 bytes,    *)
(* and a sequence of attributes [c, k, v, p, pre]: type, known to the      *)
(* attribute set?, abstract value, padding bytes, and - for                *)
(* MESSAGE-INTEGRITY - the preceding message bytes its HMAC is about.      *)
(***************************************************************************)
EXTENDS StunWire

HeaderLen == 20
MaxBody == 65535

(* ------------------------------ message type ---------------------------- *)
\* M11..M7 C1 M6..M4 C0 M3..M0
TypeBits(cl, me) ==
    (me % 16) + (cl % 2) * 16 + ((me \div 16) % 8) * 32
  + (cl \div 2) * 256 + (me \div 128) * 512
TypeClass(ty) == ((ty \div 16) % 2) + ((ty \div 256) % 2) * 2
TypeMethod(ty) == (ty % 16) + ((ty \div 32) % 8) * 16 + ((ty \div 512) % 32) * 128

Attr(c, v) == [ c |-> c, k |-> TRUE, v |-> v, p |-> << >>, pre |-> << >> ]

(* -------------------------------- encoding ------------------------------ *)
AttrKind(set, a) == IF a.k THEN KindIn(set, a.c) ELSE "raw"

AttrLen(set, a) == LET n == EncLen(AttrKind(set, a), a.v) IN 4 + Padded(n)

\* Length of the encoded attributes, not counted exactly beyond 200000.
BodyLen(set, at) ==
  FoldLeft(LAMBDA n, a : IF n > 200000 THEN n ELSE n + AttrLen(set, a), 0, at)

Encodable(set, m) ==
  /\ \A i \in 1..Len(m.at) : EncLen(AttrKind(set, m.at[i]), m.at[i].v) <= 65535
  /\ BodyLen(set, m.at) <= MaxBody

EncAttr(set, a, tx) ==
  LET kind == AttrKind(set, a)
      w == EncVal(kind, a.v, tx)
      pad == IF a.p # << >> THEN a.p ELSE Zeros(PadLen(Len(w)))
  IN BE16(a.c) \o BE16(Len(w)) \o w \o pad

EncAttrs(set, at, tx) == FoldLeft(LAMBDA w, a : w \o EncAttr(set, a, tx), << >>, at)

Header(cl, me, len, tx) == BE16(TypeBits(cl, me)) \o BE16(len) \o MagicCookie \o tx

EncMsg(set, m) ==
  LET body == EncAttrs(set, m.at, m.tx)
  IN Header(m.cl, m.me, Len(body), m.tx) \o body

\* Packet s with its length field replaced.
WithLen(s, n) == SubSeq(s, 1, 2) \o BE16(n % 65536) \o SubSeq(s, 5, Len(s))

(* -------------------- FINGERPRINT and MESSAGE-INTEGRITY ------------------ *)
FpXor == << 83, 84, 85, 78 >>          \* 0x5354554E
\* The FINGERPRINT value for a message whose bytes so far are s.
FpOver(s) == XorSeq(CRC32(WithLen(s, Len(s) - HeaderLen + 8)), FpXor)
\* What the HMAC is computed over, when the message bytes so far are s.
MiInput(s) == WithLen(s, Len(s) - HeaderLen + 24)
LongTermKey(user, realm, pw) == MD5(user \o << 58 >> \o realm \o << 58 >> \o pw)

(* ------------------------------- decoding ------------------------------- *)
\* Whether 20 header bytes are those of a STUN packet.
HeaderOK(s) == s[1] < 64 /\ SubSeq(s, 5, 8) = MagicCookie
PktLen(s) == HeaderLen + U16At(s, 3)

(* A cursor over the attributes of packet s: i the index of the next one,   *)
(* at those before it, ok whether they are all right.                       *)
ParseStep(set, only, s, k) ==
  LET i == k.i
      left == Len(s) - i + 1
      no == [ k EXCEPT !.ok = FALSE ]
  IN
  IF ~k.ok \/ left = 0 THEN k
  ELSE IF left < 4 THEN no
  ELSE LET c == U16At(s, i)
           n == U16At(s, i + 2)
           known == KnownType(set, only, c)
           kind == IF known THEN KindIn(set, c) ELSE "raw"
           tx == SubSeq(s, 9, 20)
       IN IF 4 + Padded(n) > left THEN no
          ELSE LET v == DecVal(kind, s, i + 4, n, tx) IN
               IF v = Bad THEN no
               ELSE IF kind = "fp" /\ v # FpOver(SubSeq(s, 1, i - 1)) THEN no
               \* Attributes of the harness refuse to be decoded if they start with 0xDD.
               ELSE IF known /\ set = "probe" /\ c \in ProbeTypes /\ v # << >> /\ v[1] = 221 THEN no
               ELSE [ ok |-> TRUE, i |-> i + 4 + Padded(n),
                      at |-> Append(k.at, [ c |-> c, k |-> known, v |-> v,
                                            p |-> SubSeq(s, i + 4 + n, i + 3 + Padded(n)),
                                            pre |-> IF kind = "mi" THEN MiInput(SubSeq(s, 1, i - 1))
                                                    ELSE << >> ]) ]

\* One step per four bytes always suffices.
Steps(s) == [ j \in 1..((Len(s) - HeaderLen + 3) \div 4) |-> j ]
ParseAttrs(set, only, s) ==
  FoldLeft(LAMBDA k, j : ParseStep(set, only, s, k), [ ok |-> TRUE, i |-> 21, at |-> << >> ], Steps(s))

\* The meaning of a complete packet: "rejected" (header), "broken" or "msg".
Parse(set, only, s) ==
  IF ~HeaderOK(s) THEN [ t |-> "err" ]
  ELSE LET ty == U16At(s, 1)
           body == ParseAttrs(set, only, s)
           ids == [ t |-> "broken", cl |-> TypeClass(ty), me |-> TypeMethod(ty), tx |-> SubSeq(s, 9, 20) ]
       IN IF body.ok
          THEN [ t |-> "msg", cl |-> ids.cl, me |-> ids.me, tx |-> ids.tx, at |-> body.at ]
          ELSE ids

\* TRUE iff every known attribute value of packet s has its reserved bits zero.
Canonical(set, only, s) ==
  LET tx == SubSeq(s, 9, 20)
      step(k) ==
        LET i == k.i  left == Len(s) - i + 1 IN
        IF ~k.ok \/ left < 4 THEN k
        ELSE LET c == U16At(s, i)
                 n == U16At(s, i + 2)
                 kind == IF KnownType(set, only, c) THEN KindIn(set, c) ELSE "raw"
             IN IF 4 + Padded(n) > left THEN [ k EXCEPT !.i = Len(s) + 1 ]
                ELSE [ i |-> i + 4 + Padded(n),
                       ok |-> DecVal(kind, s, i + 4, n, tx) # Bad => CanonicalVal(kind, s, i + 4, n) ]
  IN FoldLeft(LAMBDA k, j : step(k), [ i |-> 21, ok |-> TRUE ], Steps(s)).ok

(* --------------------------- derived observables ------------------------ *)
Known(at) == SelectSeq(at, LAMBDA a : a.k)
Unknown(at) == SelectSeq(at, LAMBDA a : ~a.k)
View(at) == [ i \in 1..Len(at) |-> << at[i].c, at[i].v >> ]
\* Indices of first occurrences of each known type.
Firsts(at) == { i \in 1..Len(at) : \A j \in 1..(i - 1) : at[j].c # at[i].c }
=============================================================================
