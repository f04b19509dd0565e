------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings are sequences over 0..255.  TLC integers are 32-bit        *)
(* signed, so 32-bit and wider quantities stay byte strings and are        *)
(* combined limb by limb.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Byte == 0..255

\* 16-bit big-endian field of s at (1-based) index i.
U16At(s, i) == s[i] * 256 + s[i + 1]

BE16(n) == << n \div 256, n % 256 >>

Zeros(n) == [ i \in 1..n |-> 0 ]

\* Bytes the padding rule of RFC 5389 section 15 adds after a value.
PadLen(n) == (4 - (n % 4)) % 4
Padded(n) == n + PadLen(n)

\* Pointwise XOR of two byte strings of equal length.
XorSeq(a, b) == [ i \in 1..Len(a) |-> a[i] ^^ b[i] ]

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(***************************************************************************)
(* Well-formed UTF-8 (Unicode table 3-7), as a left-to-right scan.         *)
(***************************************************************************)
Cont(b) == b \in 128..191

\* Length of the well-formed UTF-8 character starting at s[i] (the text ends
\* at index e), or 0 if there is none.
Utf8CharLen(s, i, e) ==
  LET b == s[i] IN
  IF b <= 127 THEN 1
  ELSE IF b \in 194..223 THEN
         IF i + 1 <= e /\ Cont(s[i+1]) THEN 2 ELSE 0
  ELSE IF b \in 224..239 THEN
         IF i + 2 <= e /\ Cont(s[i+1]) /\ Cont(s[i+2])
              /\ (b = 224 => s[i+1] >= 160)
              /\ (b = 237 => s[i+1] <= 159)
         THEN 3 ELSE 0
  ELSE IF b \in 240..244 THEN
         IF i + 3 <= e /\ Cont(s[i+1]) /\ Cont(s[i+2]) /\ Cont(s[i+3])
              /\ (b = 240 => s[i+1] >= 144)
              /\ (b = 244 => s[i+1] <= 143)
         THEN 4 ELSE 0
  ELSE 0

\* Number of characters of s[i..e], or -1 if it is not UTF-8.
Utf8Count(s, i, e) ==
  LET step(a, j) ==        \* a = << bytes of the current character still to come, characters >>
        IF a[2] = -1 THEN a
        ELSE IF a[1] > 0 THEN << a[1] - 1, a[2] >>
        ELSE LET k == Utf8CharLen(s, j, e) IN
             IF k = 0 THEN << 0, -1 >> ELSE << k - 1, a[2] + 1 >>
  IN FoldLeft(step, << 0, 0 >>, [ j \in 1..(e - i + 1) |-> i + j - 1 ])[2]

\* The same for s[i..], as an operator java/Bytes.java overrides (see Digest.tla).
CharCountFrom(s, i) == Utf8Count(s, i, Len(s))
CharCount(s) == CharCountFrom(s, 1)
=============================================================================
