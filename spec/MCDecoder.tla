------------------------------ MODULE MCDecoder ----------------------------
(***************************************************************************)
(* Every delivery of streams of packets to the decoder as it is built      *)
(* (StunDecoder), in lockstep with the byte-stream decoder (StunCodec) and *)
(* the meaning of a packet (Parse).                                        *)
(*                                                                         *)
(*   Agree         same bytes consumed, same rejections, same outcomes     *)
(*                 (C05, C07, C08)                                         *)
(*   RequiredOK    required bytes never more than the packet still needs,  *)
(*                 zero exactly when an item is ready (C19)                *)
(*   IdleOK        idle exactly when an item is ready (C05)                *)
(*   NoOverRead    (C09)                                                   *)
(*   Delivered     the outcomes are those of the packets on their own      *)
(*   Finishes      every stream is read to its end (C09: no hang)          *)
(***************************************************************************)
EXTENDS StunDecoder, Packets, Json, TLCExt, TLC

CONSTANTS Sets,      \* attribute sets to decode with
          Depth,     \* packets per stream
          Chunks,    \* chunk sizes; 1000 is the rest of the stream
          AnyChunk,  \* TRUE: every chunk size
          Emit       \* print the transitions as calls of the harness

Pool == Ok \o BrokenPackets \o << Unknown2 >>
\* Rejected packets end with their header: what follows is not theirs.
\* Packets the harness's attributes refuse to be decoded from, and do not.
Hooked == << Packet(0, 1, Tx1, Tlv(\h7F00, << 221 >>, << 1, 2, 3 >>) \o Tlv(\hFF00, << 1, 2 >>, << 0, 0 >>)),
             Packet(3, 2, Tx0, Tlv(\hFF00, << 220 >>, << 0, 0, 0 >>) \o Tlv(\h7F00, << 1, 2, 3, 4 >>, << >>)) >>
Rejects == << Take(WrongBits, 20), Take(WrongBit, 20), Take(WrongCookie, 20) >>
All == Pool \o Hooked \o Rejects

Streams == [ 1..Depth -> 1..Len(All) ]
Flat1(is) == FoldLeft(LAMBDA w, i : w \o All[i], << >>, is)
Meaning(t, is) == FoldLeft(LAMBDA m, i : Append(m, Parse(t, 0, All[i])), << >>, is)

VARIABLES set, stream, wire, want, first, pos, d, s, res
in == << set, stream, wire, want >>
vars == << in, first, pos, d, s, res >>

\* A transition: from state s the calls o lead to state t (<< >> as s: the initial state).
Says(x, calls, t) == Emit => PrintT(ToJson([ s |-> x, o |-> calls, t |-> t ]))
\* Every packet of the stream decoded at once, for comparison.
Ref(is) == FoldLeft(LAMBDA q, i : q \o << [ op |-> "dec", b |-> All[i], lab |-> i ], [ op |-> "fd" ] >>,
                    << [ op |-> "fd" ] >>, is)
Id == << set, stream, first, pos, TLCFP(<< d, res >>) >>
IdNext == << set, stream, first', pos', TLCFP(<< d', res' >>) >>

Init ==
  /\ set \in Sets
  /\ stream \in Streams /\ wire = Flat1(stream) /\ want = Meaning(set, stream)
  /\ first = 1 /\ pos = 0
  /\ d = FreshMsgDec /\ s = FreshDec
  /\ res = "agree"
  /\ Emit => PrintT(ToJson([ s |-> << >>, o |-> << [ op |-> "fd" ] >>, t |-> Id, ref |-> Ref(stream) ]))

Left == Len(wire) - pos

\* The decoder is given n bytes; more may follow, or the rest of the stream.
Feed(n, e) ==
  /\ res = "agree" /\ first <= Depth /\ n <= Left /\ ~Ready(s.buf)
  /\ LET b == SubSeq(wire, pos + 1, pos + n)
         eos == IF e = "more" THEN -1 ELSE Left - n
         g == DecFeed(s, b, eos)
         i == ImplFeed(set, 0, d, b, eos)
     IN CASE g.t = "rejected" ->
               /\ res' = IF i.t # "err" THEN "not rejected" ELSE "agree"
               /\ s' = g.d /\ d' = i.d
               /\ pos' = pos + g.n /\ first' = first + 1
          [] g.t = "ok" ->
               /\ res' = IF i.t # "ok" THEN "error" ELSE IF i.n # g.n THEN "consumed" ELSE "agree"
               /\ s' = g.d /\ d' = i.d
               /\ pos' = pos + g.n /\ UNCHANGED first
          [] OTHER -> res' = "open" /\ UNCHANGED << s, d, pos, first >>
  /\ Says(Id, << [ op |-> "feed", b |-> SubSeq(wire, pos + 1, pos + n), eos |-> IF e = "more" THEN -1 ELSE Left - n,
                  lab |-> stream[first] ] >>, IdNext)
  /\ UNCHANGED in

Fin ==
  /\ res = "agree" /\ Ready(s.buf)
  /\ LET i == ImplFin(set, d)
         g == DecFin(set, 0, s)
     IN /\ res' = IF i.x # g.x THEN "outcome"
                  ELSE IF g.x # want[first] THEN "other packet" ELSE "agree"
        /\ d' = i.d /\ s' = g.d
  /\ first' = first + 1
  /\ UNCHANGED << in, pos >>
  /\ Says(Id, << [ op |-> "fin", lab |-> stream[first] ] >>, IdNext)

Next ==
  \/ \E n \in IF AnyChunk THEN 0..Left ELSE { IF c = 1000 THEN Left ELSE c : c \in Chunks },
        e \in {"more", "end"} : Feed(n, e)
  \/ Fin
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Agree == res = "agree"
IdleOK == ImplIdle(d) = Ready(s.buf)
RequiredOK == /\ ImplNeed(d) <= Need(s.buf)
              /\ (ImplNeed(d) = 0) = Ready(s.buf)
NoOverRead == pos <= Len(wire)
Delivered == (first > Depth) => pos = Len(wire) /\ s = FreshDec
\* Nothing of the past is left where the next packet begins.
Clean == (s = FreshDec) => d.f = FreshMsgDec.f /\ d.hd = << >> /\ d.s = FreshAttrs /\ d.rem = d.exp
\* From every state a chunk of the rest of the stream makes progress.
CanProgress == first <= Depth /\ res = "agree" => ENABLED Next
=============================================================================
