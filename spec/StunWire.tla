------------------------------ MODULE StunWire -----------------------------
(***************************************************************************)
(* Attribute types, their abstract values, the values their constructors   *)
(* accept, and their wire format (RFC 5389, 5245, 5766, 5780, 8016, 8656). *)
(*                                                                         *)
(* The abstract value of an attribute is a sequence of integers:           *)
(*   addresses      << family (1|2), port, address bytes... >>             *)
(*   text           its UTF-8 bytes                                        *)
(*   ERROR-CODE     << code, UTF-8 bytes of the reason... >>               *)
(*   UNKNOWN-ATTRS  the attribute types                                    *)
(*   flags          one 0/1 per flag         numbers of 8/16 bits  << n >> *)
(*   32/64-bit numbers, digests, data, raw attributes    their bytes       *)
(***************************************************************************)
EXTENDS Digest, FiniteSets, TLC

MagicCookie == << 33, 18, 164, 66 >>        \* 0x2112A442

Kind ==
     \h0001 :> "addr"  @@ \h8023 :> "addr"  @@ \h802B :> "addr" @@ \h802C :> "addr"
  @@ \h0012 :> "xaddr" @@ \h0016 :> "xaddr" @@ \h0020 :> "xaddr" @@ \h8020 :> "xaddr"
  @@ \h0006 :> "name"
  @@ \h0014 :> "text"  @@ \h0015 :> "text"  @@ \h8022 :> "text"
  @@ \h0008 :> "mi"    @@ \h8028 :> "fp"
  @@ \h0009 :> "err"   @@ \h000A :> "types"
  @@ \h0003 :> "change"
  @@ \h000C :> "chan"  @@ \h000D :> "u32"   @@ \h0024 :> "u32"
  @@ \h0013 :> "data"  @@ \h8030 :> "data"
  @@ \h0018 :> "even"  @@ \h0019 :> "proto"
  @@ \h001A :> "empty" @@ \h0025 :> "empty"
  @@ \h0022 :> "u64"   @@ \h8029 :> "u64"   @@ \h802A :> "u64"
  @@ \h0027 :> "port"
  @@ \h0017 :> "family" @@ \h8000 :> "family"

AllTypes == DOMAIN Kind

\* The attribute sets the library predefines ("rfcNNNN"), and the user-defined
\* ones the harness builds with define_attribute_enums! ("all", "turn", "probe").
Rfc5389Types == { \h0001, \h0006, \h0008, \h0009, \h000A, \h0014, \h0015, \h0020,
                  \h8020, \h8022, \h8023, \h8028 }
Rfc5245Types == { \h0024, \h0025, \h8029, \h802A }
Rfc5766Types == { \h000C, \h000D, \h0012, \h0013, \h0016, \h0018, \h0019, \h001A, \h0022 }
Rfc5780Types == { \h0003, \h802B, \h0027, \h802C }
TurnTypes == { \h0001, \h0006, \h0008, \h0009, \h000A, \h0014, \h0015, \h0020, \h8022,
               \h8023, \h8028 } \cup Rfc5766Types
\* Attribute types of the harness whose hooks record their calls.
ProbeTypes == { \h7F00, \hFF00 }

\* set "raw": every type is known as uninterpreted bytes.  "probe0" is "probe"
\* before the hooks of its attributes have been asked.
KnownType(set, only, c) ==
  CASE set = "rfc5389" -> c \in Rfc5389Types
    [] set = "rfc5245" -> c \in Rfc5245Types
    [] set = "rfc5766" -> c \in Rfc5766Types
    [] set = "rfc5780" -> c \in Rfc5780Types
    [] set = "all"     -> c \in AllTypes
    [] set = "turn"    -> c \in TurnTypes
    [] set = "one"     -> c = only
    [] set = "raw"     -> TRUE
    [] set \in {"probe", "probe0"} -> c \in ProbeTypes \cup { \h8022, \h0020 }

\* How an attribute set interprets the value of a type it knows.
KindIn(set, c) == IF set = "raw" \/ c \notin AllTypes THEN "raw" ELSE Kind[c]

ComprehensionRequired(c) == c < 32768

(* ------------------------------ XOR masking ---------------------------- *)
XorPort(port) == port ^^ \h2112
XorMask(fam, tx) == IF fam = 1 THEN MagicCookie ELSE MagicCookie \o tx
\* socket_addr_xor on << fam, port, bytes... >>
XorAddr(v, tx) ==
  << v[1], XorPort(v[2]) >>
    \o XorSeq(SubSeq(v, 3, Len(v)), XorMask(v[1], tx))

(* --------------------- values a constructor accepts --------------------- *)
BytesOK(v) == \A i \in 1..Len(v) : v[i] \in 0..255
Dom(kind, v) ==
  CASE kind \in {"addr", "xaddr"} -> (v[1] = 1 /\ Len(v) = 6) \/ (v[1] = 2 /\ Len(v) = 18)
    [] kind = "name"   -> Len(v) < 513 /\ CharCount(v) >= 0
    [] kind = "text"   -> CharCount(v) \in 0..127
    [] kind = "mi"     -> Len(v) = 20
    [] kind = "fp"     -> Len(v) = 4
    [] kind = "err"    -> v[1] \in 300..599 /\ CharCountFrom(v, 2) >= 0
    [] kind = "types"  -> TRUE
    [] kind = "change" -> Len(v) = 2
    [] kind = "chan"   -> v[1] \in \h4000..\h4FFF
    [] kind = "u32"    -> Len(v) = 4
    [] kind = "u64"    -> Len(v) = 8
    [] kind = "data"   -> Len(v) <= 65535
    [] kind \in {"even", "proto", "port"} -> Len(v) = 1
    [] kind = "empty"  -> v = << >>
    [] kind = "family" -> v[1] \in {1, 2}
    [] kind = "raw"    -> TRUE

(* ------------------------------ wire values ----------------------------- *)
EncAddr(v) == << 0, v[1] >> \o BE16(v[2]) \o SubSeq(v, 3, Len(v))

EncTypes(v) ==
  [ j \in 1..(2 * Len(v)) |-> IF j % 2 = 1 THEN v[(j + 1) \div 2] \div 256 ELSE v[j \div 2] % 256 ]

EncVal(kind, v, tx) ==
  CASE kind = "addr"   -> EncAddr(v)
    [] kind = "xaddr"  -> EncAddr(XorAddr(v, tx))
    [] kind = "err"    -> << 0, 0, v[1] \div 100, v[1] % 100 >> \o SubSeq(v, 2, Len(v))
    [] kind = "types"  -> EncTypes(v)
    [] kind = "change" -> << 0, 0, 0, v[1] * 4 + v[2] * 2 >>
    [] kind = "chan"   -> BE16(v[1]) \o << 0, 0 >>
    [] kind = "even"   -> << v[1] * 128 >>
    [] kind = "proto"  -> << v[1], 0, 0, 0 >>
    [] kind = "port"   -> BE16(v[1]) \o << 0, 0 >>
    [] kind = "family" -> << v[1], 0, 0, 0 >>
    [] OTHER           -> v

EncLen(kind, v) ==
  CASE kind \in {"addr", "xaddr"} -> Len(v) + 2
    [] kind = "err"    -> Len(v) + 3
    [] kind = "types"  -> 2 * Len(v)
    [] kind \in {"change", "chan", "proto", "port", "family"} -> 4
    [] kind = "even"   -> 1
    [] OTHER           -> Len(v)

\* Bad is not a value.
Bad == << -1 >>

DecAddr(s, i, n) ==
  IF (n = 8 /\ s[i+1] = 1) \/ (n = 20 /\ s[i+1] = 2)
  THEN << s[i+1], U16At(s, i + 2) >> \o SubSeq(s, i + 4, i + n - 1)
  ELSE Bad

\* The value of n wire bytes at s[i..i+n-1], or Bad.  Reserved bits are ignored.
DecVal(kind, s, i, n, tx) ==
  LET raw == SubSeq(s, i, i + n - 1) IN
  CASE kind = "addr"   -> DecAddr(s, i, n)
    [] kind = "xaddr"  -> LET a == DecAddr(s, i, n) IN IF a = Bad THEN Bad ELSE XorAddr(a, tx)
    [] kind = "name"   -> IF n < 513 /\ CharCount(raw) >= 0 THEN raw ELSE Bad
    [] kind = "text"   -> IF CharCount(raw) \in 0..127 THEN raw ELSE Bad
    [] kind = "mi"     -> IF n = 20 THEN raw ELSE Bad
    [] kind = "fp"     -> IF n = 4 THEN raw ELSE Bad
    [] kind = "err"    -> IF /\ n >= 4
                             /\ (s[i+2] % 8) \in 3..5
                             /\ s[i+3] < 100
                             /\ CharCountFrom(raw, 5) >= 0
                          THEN << (s[i+2] % 8) * 100 + s[i+3] >> \o SubSeq(s, i + 4, i + n - 1)
                          ELSE Bad
    [] kind = "types"  -> IF n % 2 = 0 THEN [ k \in 1..(n \div 2) |-> U16At(s, i + 2 * (k - 1)) ]
                          ELSE Bad
    [] kind = "change" -> IF n = 4 THEN << (s[i+3] \div 4) % 2, (s[i+3] \div 2) % 2 >> ELSE Bad
    [] kind = "chan"   -> IF n = 4 /\ U16At(s, i) \in \h4000..\h4FFF THEN << U16At(s, i) >> ELSE Bad
    [] kind = "u32"    -> IF n = 4 THEN raw ELSE Bad
    [] kind = "u64"    -> IF n = 8 THEN raw ELSE Bad
    [] kind = "data"   -> raw
    [] kind = "even"   -> IF n = 1 THEN << s[i] \div 128 >> ELSE Bad
    [] kind = "proto"  -> IF n = 4 THEN << s[i] >> ELSE Bad
    [] kind = "port"   -> IF n = 4 THEN << U16At(s, i) >> ELSE Bad
    [] kind = "empty"  -> IF n = 0 THEN << >> ELSE Bad
    [] kind = "family" -> IF n = 4 /\ s[i] \in {1, 2} THEN << s[i] >> ELSE Bad
    [] kind = "raw"    -> raw

\* TRUE iff the reserved bits of the n wire bytes at s[i..] are zero, i.e. the
\* value is the one its sender is required to write.
CanonicalVal(kind, s, i, n) ==
  CASE kind \in {"addr", "xaddr"} -> s[i] = 0
    [] kind = "err"    -> s[i] = 0 /\ s[i+1] = 0 /\ s[i+2] < 8
    [] kind = "change" -> s[i] = 0 /\ s[i+1] = 0 /\ s[i+2] = 0 /\ s[i+3] \in {0, 2, 4, 6}
    [] kind \in {"chan", "port"} -> s[i+2] = 0 /\ s[i+3] = 0
    [] kind = "even"   -> s[i] \in {0, 128}
    [] kind \in {"proto", "family"} -> s[i+1] = 0 /\ s[i+2] = 0 /\ s[i+3] = 0
    [] OTHER           -> TRUE
=============================================================================
