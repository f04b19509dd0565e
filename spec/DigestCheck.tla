---------------------------- MODULE DigestCheck ----------------------------
(* Test vectors for the digest definitions, and agreement of the Java       *)
(* overrides with the definitions.                                          *)
EXTENDS Digest, TLC, FiniteSets

Abc == << 97, 98, 99 >>
Ramp(n) == [ i \in 1..n |-> ((i * 7) + ((i * i) % 11)) % 256 ]

\* RFC 3174, RFC 1321, RFC 2202 and the CRC catalogue check value.
ASSUME SHA1Def(Abc) = << 169,153,62,54,71,6,129,106,186,62,37,113,120,80,194,108,156,208,216,157 >>
ASSUME MD5Def(Abc) = << 144,1,80,152,60,210,79,176,214,150,63,125,40,225,127,114 >>
ASSUME CRC32Def([ i \in 1..9 |-> 48 + i ]) = << 203, 244, 57, 38 >>
ASSUME HmacSha1Def([ i \in 1..20 |-> 11 ], << 72,105,32,84,104,101,114,101 >>)
         = << 182,23,49,134,85,5,114,100,226,139,192,182,251,55,140,142,241,70,190,0 >>

ASSUME \A n \in {0, 1, 3, 20, 55, 56, 57, 63, 64, 65, 119, 120, 128, 200} :
         /\ CRC32(Ramp(n)) = CRC32Def(Ramp(n))
         /\ SHA1(Ramp(n)) = SHA1Def(Ramp(n))
         /\ MD5(Ramp(n)) = MD5Def(Ramp(n))
         /\ HmacSha1(Ramp(n), Ramp(n + 9)) = HmacSha1Def(Ramp(n), Ramp(n + 9))

\* Bytes that start, continue or break UTF-8 characters, at every boundary.
U == { 0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 239,
       240, 243, 244, 245, 255 }
ASSUME \A a, b, c \in U : CharCountFrom(<< a, b, c >>, 1) = Utf8Count(<< a, b, c >>, 1, 3)
Lead == { 127, 194, 224, 225, 237, 240, 241, 244, 245 }
ASSUME \A a \in Lead, b, c, d \in U :
         LET s == << 7, a, b, c, d, 65 >> IN CharCountFrom(s, 2) = Utf8Count(s, 2, 6)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
