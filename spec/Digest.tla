------------------------------ MODULE Digest -------------------------------
(***************************************************************************)
(* The checksums STUN uses, defined on byte strings:                       *)
(*   CRC-32 (ISO-HDLC), MD5, SHA-1 and HMAC-SHA-1.                         *)
(* 32-bit words are pairs << hi, lo >> of 16-bit limbs.                    *)
(*                                                                         *)
(* The definitions below are complete; java/Digest.java overrides the four *)
(* public operators with the JDK's implementations to make validating      *)
(* thousands of messages affordable, and DigestCheck.tla makes TLC compare *)
(* both on published test vectors and on the messages of every run.        *)
(***************************************************************************)
EXTENDS Bytes

LOCAL INSTANCE FiniteSets

\* 1, ..., n and the block offsets 1, 1 + k, ... of a string of n bytes, as sequences.
Upto(n) == [ i \in 1..n |-> i ]
Offsets(n, k) == [ i \in 1..(n \div k) |-> 1 + k * (i - 1) ]

W(hi, lo) == << hi, lo >>
WXor(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
WAnd(a, b) == << a[1] & b[1], a[2] & b[2] >>
WOr(a, b) == << a[1] | b[1], a[2] | b[2] >>
WNot(a) == << 65535 - a[1], 65535 - a[2] >>
WAdd(a, b) == LET lo == a[2] + b[2] IN
              << (a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536 >>
\* Rotate left by n (0 < n < 32).
WRotl(a, n) ==
  LET x == IF n >= 16 THEN << a[2], a[1] >> ELSE a
      k == n % 16
      p == 2^k
      q == 2^(16 - k)
  IN << ((x[1] * p) % 65536) + (x[2] \div q), ((x[2] * p) % 65536) + (x[1] \div q) >>
\* Shift right by n < 16.
WShr(a, n) == << a[1] \div 2^n, (a[2] \div 2^n) + ((a[1] % 2^n) * 2^(16 - n)) >>

WBytesBE(a) == << a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256 >>
WBytesLE(a) == << a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256 >>
WFromBE(s, i) == << U16At(s, i), U16At(s, i + 2) >>
WFromLE(s, i) == << s[i+3] * 256 + s[i+2], s[i+1] * 256 + s[i] >>

(* ----------------------------- CRC-32 --------------------------------- *)
CrcShift(c) == IF c[2] % 2 = 1 THEN WXor(WShr(c, 1), << 60856, 33568 >>)   \* 0xEDB88320
               ELSE WShr(c, 1)
CrcTable == [ b \in 0..255 |-> FoldLeft(LAMBDA c, k : CrcShift(c), << 0, b >>, Upto(8)) ]
CrcStep(c, x) == WXor(CrcTable[(c[2] % 256) ^^ x], WShr(c, 8))

CRC32Def(s) == WBytesBE(WNot(FoldLeft(CrcStep, << 65535, 65535 >>, s)))

(* ----------------------- Merkle-Damgard padding ------------------------ *)
MdPadZeros(n) == (119 - (n % 64)) % 64
\* Message sizes stay far below 2^28 bytes.
LenBits(n) == << (n * 8) \div 65536, (n * 8) % 65536 >>

(* ------------------------------- SHA-1 --------------------------------- *)
ShaPad(s) == s \o << 128 >> \o Zeros(MdPadZeros(Len(s))) \o Zeros(4)
               \o WBytesBE(LenBits(Len(s)))

ShaSched(w16) ==
  FoldLeft(LAMBDA w, k : LET t == k + 16 IN
             Append(w, WRotl(WXor(WXor(w[t-3], w[t-8]), WXor(w[t-14], w[t-16])), 1)),
           w16, Upto(64))

ShaF(t, b, c, d) ==
  IF t <= 20 THEN WOr(WAnd(b, c), WAnd(WNot(b), d))
  ELSE IF t <= 40 \/ t > 60 THEN WXor(WXor(b, c), d)
  ELSE WOr(WOr(WAnd(b, c), WAnd(b, d)), WAnd(c, d))
ShaK(t) == IF t <= 20 THEN << 23170, 31129 >>        \* 5A827999
           ELSE IF t <= 40 THEN << 28377, 60321 >>   \* 6ED9EBA1
           ELSE IF t <= 60 THEN << 36635, 48348 >>   \* 8F1BBCDC
           ELSE << 51810, 49622 >>                   \* CA62C1D6

ShaRounds(w, h) ==            \* x = << a, b, c, d, e >>
  FoldLeft(LAMBDA x, t :
             << WAdd(WAdd(WAdd(WRotl(x[1], 5), ShaF(t, x[2], x[3], x[4])), WAdd(x[5], w[t])), ShaK(t)),
                x[1], WRotl(x[2], 30), x[3], x[4] >>,
           h, Upto(80))

ShaBlock(p, i, h) ==
  LET w16 == [ k \in 1..16 |-> WFromBE(p, i + 4 * (k - 1)) ]
      r == ShaRounds(ShaSched(w16), h)
  IN << WAdd(h[1], r[1]), WAdd(h[2], r[2]), WAdd(h[3], r[3]), WAdd(h[4], r[4]), WAdd(h[5], r[5]) >>

SHA1Def(s) ==
  LET p == ShaPad(s)
      h == FoldLeft(LAMBDA x, i : ShaBlock(p, i, x),
             << << 26437, 8961 >>, << 61389, 43913 >>, << 39098, 56574 >>,
                << 4146, 21622 >>, << 50130, 57840 >> >>, Offsets(Len(p), 64))
  IN WBytesBE(h[1]) \o WBytesBE(h[2]) \o WBytesBE(h[3]) \o WBytesBE(h[4]) \o WBytesBE(h[5])

(* -------------------------------- MD5 ---------------------------------- *)
MdPad(s) == s \o << 128 >> \o Zeros(MdPadZeros(Len(s)))
              \o WBytesLE(LenBits(Len(s))) \o Zeros(4)

MdS == << << 7, 12, 17, 22 >>, << 5, 9, 14, 20 >>, << 4, 11, 16, 23 >>, << 6, 10, 15, 21 >> >>
\* floor(2^32 * abs(sin(i))), i = 1..64 (RFC 1321), as 16-bit limbs.
MdT == <<
  << 55146, 42104 >>, << 59591, 46934 >>, << 9248, 28891 >>, << 49597, 52974 >>,
  << 62844, 4015 >>, << 18311, 50730 >>, << 43056, 17939 >>, << 64838, 38145 >>,
  << 27008, 39128 >>, << 35652, 63407 >>, << 65535, 23473 >>, << 35164, 55230 >>,
  << 27536, 4386 >>, << 64920, 29075 >>, << 42617, 17294 >>, << 18868, 2081 >>,
  << 63006, 9570 >>, << 49216, 45888 >>, << 9822, 23121 >>, << 59830, 51114 >>,
  << 54831, 4189 >>, << 580, 5203 >>, << 55457, 59009 >>, << 59347, 64456 >>,
  << 8673, 52710 >>, << 49975, 2006 >>, << 62677, 3463 >>, << 17754, 5357 >>,
  << 43491, 59653 >>, << 64751, 41976 >>, << 26479, 729 >>, << 36138, 19594 >>,
  << 65530, 14658 >>, << 34673, 63105 >>, << 28061, 24866 >>, << 64997, 14348 >>,
  << 42174, 59972 >>, << 19422, 53161 >>, << 63163, 19296 >>, << 48831, 48240 >>,
  << 10395, 32454 >>, << 60065, 10234 >>, << 54511, 12421 >>, << 1160, 7429 >>,
  << 55764, 53305 >>, << 59099, 39397 >>, << 8098, 31992 >>, << 50348, 22117 >>,
  << 62505, 8772 >>, << 17194, 65431 >>, << 43924, 9127 >>, << 64659, 41017 >>,
  << 25947, 22979 >>, << 36620, 52370 >>, << 65519, 62589 >>, << 34180, 24017 >>,
  << 28584, 32335 >>, << 65068, 59104 >>, << 41729, 17172 >>, << 19976, 4513 >>,
  << 63315, 32386 >>, << 48442, 62005 >>, << 10967, 53947 >>, << 60294, 54161 >> >>
MdF(r, b, c, d) ==
  CASE r = 0 -> WOr(WAnd(b, c), WAnd(WNot(b), d))
    [] r = 1 -> WOr(WAnd(b, d), WAnd(c, WNot(d)))
    [] r = 2 -> WXor(WXor(b, c), d)
    [] r = 3 -> WXor(c, WOr(b, WNot(d)))
MdG(r, i) ==
  CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16
    [] r = 3 -> (7 * i) % 16

MdRound(m, x, i) ==       \* i = 0..63, x = << a, b, c, d >>
  LET r == i \div 16
      f == WAdd(WAdd(MdF(r, x[2], x[3], x[4]), x[1]), WAdd(MdT[i + 1], m[MdG(r, i) + 1]))
  IN << x[4], WAdd(x[2], WRotl(f, MdS[r + 1][(i % 4) + 1])), x[2], x[3] >>

MdBlock(p, i, h) ==
  LET m == [ k \in 1..16 |-> WFromLE(p, i + 4 * (k - 1)) ]
      r == FoldLeft(LAMBDA x, k : MdRound(m, x, k - 1), h, Upto(64))
  IN << WAdd(h[1], r[1]), WAdd(h[2], r[2]), WAdd(h[3], r[3]), WAdd(h[4], r[4]) >>

MD5Def(s) ==
  LET p == MdPad(s)
      h == FoldLeft(LAMBDA x, i : MdBlock(p, i, x),
             << << 26437, 8961 >>, << 61389, 43913 >>, << 39098, 56574 >>, << 4146, 21622 >> >>,
             Offsets(Len(p), 64))
  IN WBytesLE(h[1]) \o WBytesLE(h[2]) \o WBytesLE(h[3]) \o WBytesLE(h[4])

(* ----------------------------- HMAC-SHA-1 ------------------------------ *)
HmacKey(k) == LET kk == IF Len(k) > 64 THEN SHA1Def(k) ELSE k
              IN kk \o Zeros(64 - Len(kk))
HmacSha1Def(k, s) ==
  LET kk == HmacKey(k)
  IN SHA1Def([ i \in 1..64 |-> kk[i] ^^ 92 ] \o SHA1Def([ i \in 1..64 |-> kk[i] ^^ 54 ] \o s))

(* ------- the operators the specification uses (overridden in Java) ------ *)
CRC32(s) == CRC32Def(s)
SHA1(s) == SHA1Def(s)
MD5(s) == MD5Def(s)
HmacSha1(k, s) == HmacSha1Def(k, s)
=============================================================================
