------------------------------ MODULE MCValue ------------------------------
(***************************************************************************)
(* The value of every attribute type on the wire: valid ones, and ones     *)
(* with a byte changed, with bytes missing and with bytes too many; text   *)
(* made of every sequence of a few bytes; every class with every method.   *)
(*                                                                         *)
(*   Valid      what is decoded is a value a constructor accepts (C14)     *)
(*   Inverted   encoding and decoding are inverse to each other, up to     *)
(*              reserved bits (C13, C03, C04)                              *)
(*   Length     a value's size on the wire                                 *)
(*   Text       names and texts are exactly the valid UTF-8 of few enough  *)
(*              characters, by the definition of RFC 3629 (C14)            *)
(*   OneToOne   class and method are a bijection with the types (C01)      *)
(*   Mask       masking is its own inverse and keeps the family (C10)      *)
(***************************************************************************)
EXTENDS Packets, StunItem, Json, TLCExt, TLC

CONSTANTS What,   \* "values", "text" or "types"
          Bytes1, \* bytes put into values
          Sigma,  \* bytes texts are made of
          Emit

Six == << 32, 1, 13, 184, 0, 0, 0, 0, 0, 0, 255, 255, 1, 2, 3, 4 >>
Bases(kind) ==
  CASE kind \in {"addr", "xaddr"} ->
         << << 0, 1, 1, 187, 127, 0, 0, 1 >>, << 0, 2, 13, 150 >> \o Six >>
    [] kind = "name"   -> << << 117, 195, 169 >>, << >> >>
    [] kind = "text"   -> << << 240, 159, 146, 169, 97 >>, << >> >>
    [] kind = "mi"     -> << [ i \in 1..20 |-> i ] >>
    [] kind = "fp"     -> << << 1, 2, 3, 4 >> >>
    [] kind = "err"    -> << << 0, 0, 4, 1, 110, 111 >>, << 0, 0, 3, 0 >>, << 0, 0, 5, 99, 226, 130, 172 >> >>
    [] kind = "types"  -> << << 127, 255, 128, 0 >>, << >>, << 0, 1, 0, 1, 0, 6 >> >>
    [] kind = "change" -> << << 0, 0, 0, 0 >>, << 0, 0, 0, 6 >> >>
    [] kind = "chan"   -> << << 64, 0, 0, 0 >>, << 79, 255, 0, 0 >> >>
    [] kind = "u32"    -> << << 0, 0, 2, 88 >>, << 255, 255, 255, 255 >> >>
    [] kind = "u64"    -> << << 1, 2, 3, 4, 5, 6, 7, 8 >>, << 255, 0, 255, 0, 255, 0, 255, 0 >> >>
    [] kind = "data"   -> << << 0, 1, 255 >>, << >> >>
    [] kind = "even"   -> << << 0 >>, << 128 >> >>
    [] kind = "proto"  -> << << 17, 0, 0, 0 >> >>
    [] kind = "port"   -> << << 13, 150, 0, 0 >>, << 255, 255, 0, 0 >> >>
    [] kind = "empty"  -> << << >> >>
    [] kind = "family" -> << << 1, 0, 0, 0 >>, << 2, 0, 0, 0 >> >>

Around(b) ==
  { b } \cup { Take(b, n) : n \in 0..Len(b) } \cup { b \o << x >> : x \in {0, 1, 200} }
        \cup { b \o << 0, 0, 0, 0 >> } \cup { b \o b }
        \cup { [ b EXCEPT ![i] = x ] : i \in 1..Len(b), x \in Bytes1 }
Wires(kind) == UNION { Around(Bases(kind)[i]) : i \in 1..Len(Bases(kind)) }
Texts == UNION { [ 1..n -> Sigma ] : n \in 0..3 }
           \cup { << x >> \o t : x \in Sigma \cap 240..255, t \in [ 1..3 -> Sigma ] }

VARIABLES c, w, cl, me
vars == << c, w, cl, me >>

Says(x, calls, t) == Emit => PrintT(ToJson([ s |-> x, o |-> calls, t |-> t ]))
Id0 == << 0 >>
Id1 == << c', w', cl', me' >>

Init == c = -1 /\ w = << >> /\ cl = -1 /\ me = -1 /\ Says(<< >>, << [ op |-> "fd" ] >>, Id0)

Class == (c' + Len(w')) % 4
Receive(x, k, val) ==
  /\ c' = x /\ w' = val /\ UNCHANGED << cl, me >>
  /\ LET b == Packet(Class, 1, Tx1, Tlv(x, val, Zeros(PadLen(Len(val)))))
         v == DecVal(k, val, 1, Len(val), Tx1)
         u == DecVal(ItemKind(x), val, 1, Len(val), Zeros(12))
     IN Says(Id0,
             << [ op |-> "dec", b |-> b ], [ op |-> "look" ] >>
               \o (IF k \in {"mi", "fp"} THEN << >> ELSE
                   << [ op |-> "inew", c |-> x ], [ op |-> "ifeed", b |-> val, eos |-> -2 ], [ op |-> "ifin" ] >>
                   \o (IF u = Bad THEN << >> ELSE << [ op |-> "istart", v |-> u ], [ op |-> "ipull", n |-> 999, eos |-> -1 ] >>)
                   \o (IF v = Bad THEN << >>
                       ELSE << [ op |-> "enc" ],
                               [ op |-> "new", cl |-> Class, me |-> 1, tx |-> Tx1 ], [ op |-> "add", c |-> x, v |-> v ],
                               [ op |-> "enc" ], [ op |-> "dec", src |-> "out" ], [ op |-> "fd" ] >>)),
             Id1)

Compose(x, y) ==
  /\ cl' = x /\ me' = y /\ UNCHANGED << c, w >>
  /\ Says(Id0, << [ op |-> "new", cl |-> x, me |-> y, tx |-> Tx0 ], [ op |-> "enc" ],
                  [ op |-> "dec", b |-> Header(x, y, 0, Tx1) ] >>, Id1)

Next ==
  /\ c = -1 /\ cl = -1
  /\ \/ What = "values" /\ \E x \in AllTypes : \E val \in Wires(Kind[x]) : Receive(x, Kind[x], val)
     \/ What = "text" /\ \E x \in { \h0006, \h0014 } : \E val \in Texts : Receive(x, Kind[x], val)
     \/ What = "text" /\ \E val \in Texts : Receive(\h0009, "err", << 0, 0, 4, 20 >> \o val)
     \/ What = "types" /\ \E x \in 0..3, y \in 0..4095 : Compose(x, y)
Spec == Init /\ [][Next]_vars

V == DecVal(Kind[c], w, 1, Len(w), Tx1)
Valid == c # -1 => V = Bad \/ Dom(Kind[c], V)
Inverted ==
  c # -1 /\ V # Bad =>
    LET x == EncVal(Kind[c], V, Tx1) IN
    /\ DecVal(Kind[c], x, 1, Len(x), Tx1) = V
    /\ CanonicalVal(Kind[c], x, 1, Len(x))
    /\ CanonicalVal(Kind[c], w, 1, Len(w)) = (x = w)
Length == c # -1 /\ V # Bad => EncLen(Kind[c], V) = Len(w) /\ Len(EncVal(Kind[c], V, Tx1)) = Len(w)

\* RFC 3629, section 4, as sets of byte sequences.
ContByte == 128..191
Utf8Char(s) ==
  CASE Len(s) = 1 -> s[1] < 128
    [] Len(s) = 2 -> s[1] \in 194..223 /\ s[2] \in ContByte
    [] Len(s) = 3 -> /\ s[3] \in ContByte
                     /\ \/ s[1] = 224 /\ s[2] \in 160..191
                        \/ s[1] \in (225..236) \cup {238, 239} /\ s[2] \in ContByte
                        \/ s[1] = 237 /\ s[2] \in 128..159
    [] Len(s) = 4 -> /\ s[3] \in ContByte /\ s[4] \in ContByte
                     /\ \/ s[1] = 240 /\ s[2] \in 144..191
                        \/ s[1] \in 241..243 /\ s[2] \in ContByte
                        \/ s[1] = 244 /\ s[2] \in 128..143
    [] OTHER -> FALSE
\* Where characters can end.
Ends(s) ==
  FoldLeft(LAMBDA r, i : IF \E j \in r : Utf8Char(SubSeq(s, j + 1, i)) THEN r \cup {i} ELSE r,
           {0}, [ i \in 1..Len(s) |-> i ])
Utf8(s) == Len(s) \in Ends(s)
Text == What = "text" /\ c # -1 =>
          (V # Bad) = Utf8(IF c = \h0009 THEN Drop(w, 4) ELSE w)

OneToOne ==
  cl # -1 => LET b == TypeBits(cl, me) IN
    b \in 0..16383 /\ TypeClass(b) = cl /\ TypeMethod(b) = me
Mask ==
  c # -1 /\ Kind[c] = "xaddr" /\ V # Bad =>
    /\ XorAddr(XorAddr(V, Tx0), Tx0) = V
    /\ XorAddr(V, Tx0)[1] = V[1]
    /\ \A t \in { Tx0, Tx1 } : XorAddr(V, t)[2] = V[2] ^^ 8466
=============================================================================
