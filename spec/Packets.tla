------------------------------- MODULE Packets -----------------------------
(***************************************************************************)
(* Small packets of every kind that matters to the decoder, for the models *)
(* that explore all deliveries of them.                                    *)
(***************************************************************************)
EXTENDS StunCodec

Tx0 == << 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 >>
Tx1 == << 255, 0, 254, 1, 33, 18, 164, 66, 128, 64, 7, 9 >>

Packet(cl, me, tx, body) == Header(cl, me, Len(body), tx) \o body
Claim(s, n) == WithLen(s, n)
Tlv(c, v, pad) == BE16(c) \o BE16(Len(v)) \o v \o pad

V4 == << 1, 80, 127, 3, 2, 1 >>
Name(s) == Attr(\h0006, s)

M(cl, me, tx, at) == [ t |-> "msg", cl |-> cl, me |-> me, tx |-> tx, at |-> at ]
WithFp(m) == [ m EXCEPT !.at = Append(@, FpAttr("all", m)) ]
WithMi(m, key) == [ m EXCEPT !.at = Append(@, MiAttr("all", m, key)) ]

MsgEmpty  == M(0, 1, Tx0, << >>)
MsgAddr   == M(2, 1, Tx0, << Attr(\h0001, V4) >>)
MsgXor    == M(2, 3, Tx1, << Attr(\h0020, V4), Attr(\h001A, << >>) >>)
MsgText   == M(1, 4095, Tx1, << Attr(\h8022, << 97, 195, 169 >>), Attr(\h0018, << 1 >>) >>)
MsgSigned == WithFp(WithMi(M(0, 1, Tx0, << Name(<< 117 >>) >>), << 107 >>))
MsgError  == M(3, 1, Tx0, << Attr(\h0009, << 401, 110, 111 >>), Attr(\h000A, << 1, 2, 2 >>) >>)

E(m) == EncMsg("all", m)
Ok == << E(MsgEmpty), E(MsgAddr), E(MsgXor), E(MsgText), E(MsgSigned), E(MsgError) >>

FlipLast(s) == [ s EXCEPT ![Len(s)] = @ ^^ 1 ]
BrokenPackets ==
  << \* an attribute cut off in its header, early and late in its value, in its padding
     Packet(0, 1, Tx1, << 128, 34, 0 >>),
     Packet(0, 1, Tx1, Tlv(\h8022, << 97 >>, << 0, 0, 0 >>) \o << 0, 1, 0, 8, 0, 1, 0 >>),
     Packet(0, 1, Tx1, << 0, 1, 0, 8, 0, 1, 0, 80, 1, 2 >>),
     Packet(2, 1, Tx0, Tlv(\h8022, << 97, 98 >>, << 0 >>)),
     \* a value its type does not allow, alone, after and before others
     Packet(0, 1, Tx0, Tlv(\h0001, << 0, 3, 0, 80, 1, 2, 3, 4 >>, << >>)),
     Packet(0, 1, Tx0, Tlv(\h0006, << 117 >>, << 1, 2, 3 >>) \o Tlv(\h0006, << 255 >>, << 0, 0, 0 >>)
                       \o Tlv(\h0025, << >>, << >>)),
     Packet(1, 3, Tx0, Tlv(\h000D, << 0, 0, 1, 2 >>, << >>) \o Tlv(\h000D, << 0, 0, 1 >>, << 9 >>)),
     Packet(1, 3, Tx0, Tlv(\h001A, << 1 >>, << 0, 0, 0 >>)),
     \* a wrong FINGERPRINT
     FlipLast(E(MsgSigned)),
     \* the length claims half an attribute
     Take(Claim(E(MsgAddr), 7), 27) >>

Unknown2 == Packet(0, 1, Tx1, Tlv(\h7FFF, << 1, 2, 3 >>, << 9 >>) \o Tlv(\h0006, << >>, << >>)
                              \o Tlv(\h7FFF, << >>, << >>))
WrongBits   == [ E(MsgAddr) EXCEPT ![1] = @ + 128 ]
WrongBit    == [ E(MsgEmpty) EXCEPT ![1] = @ + 64 ]
WrongCookie == [ E(MsgText) EXCEPT ![8] = 67 ]
=============================================================================
