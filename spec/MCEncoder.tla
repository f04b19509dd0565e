----------------------------- MODULE MCEncoder -----------------------------
(***************************************************************************)
(* Every history of one encoder: starting messages (also while one is      *)
(* being emitted, messages too large, messages whose hook refuses) and     *)
(* emitting into buffers of every size - the encoder as it is built        *)
(* (StunEncoder) in lockstep with the encoder of StunCodec.                *)
(*                                                                         *)
(*   Agree       same answers, same bytes (C06, C16, C21)                  *)
(*   NeedExact   required bytes are exactly those still to come, and idle  *)
(*               iff there are none (C06)                                  *)
(*   NoOverrun   a buffer of n bytes gets at most n (C09)                  *)
(*   Whole       what was emitted for a message is its encoding (C06, C16) *)
(***************************************************************************)
EXTENDS StunEncoder, Packets, Json, TLCExt, TLC

CONSTANTS ESet,      \* attribute set
          Starts,    \* messages started per history
          Buffers,   \* buffer sizes; 1000 is all that is left and more
          Emit       \* print the transitions as calls of the harness

\* The models use a small limit for the body, so that messages can exceed it.
SmallMaxBody == 44

\* Messages of the largest size, too large, with a too large attribute.
\* (The harness is given 400, 65536 and 65536 bytes instead, see Says.)
Filled(c, n) == Attr(c, [ i \in 1..n |-> 97 ])
Sized(c) == << M(3, 1365, Tx1, << Filled(c, 20), Filled(c, 13) >>),
               M(0, 9, Tx0, << Filled(c, 20), Filled(c, 18) >>),
               M(1, 6, Tx1, << Filled(c, 41) >>) >>
MsgSoft  == M(2, 1, Tx0, << Attr(\h0020, V4) >>)
MsgProbe == M(2, 1, Tx0, << Attr(\h7F00, << 1, 2 >>), Attr(\hFF00, << >>) >>)
MsgHook  == M(0, 2, Tx1, << Attr(\h7F00, << 1 >>), Attr(\hFF00, << 238, 1 >>), Attr(\h7F00, << >>) >>)

Msgs == CASE ESet = "all" -> << MsgEmpty, MsgAddr, MsgXor, MsgError >> \o Sized(\h0013)
          [] ESet = "probe" -> << MsgEmpty, MsgSoft, MsgProbe, MsgHook >> \o Sized(\h7F00)
Small == 4

VARIABLES e,         \* the encoder as built
          a,         \* the encoder of StunCodec
          got, want, \* bytes emitted of the current message, and all there are
          n,         \* messages started
          res
vars == << e, a, got, want, n, res >>

\* A transition: from state s the calls o lead to state t (<< >> as s: the initial state).
Says(x, calls, t) == Emit => PrintT(ToJson([ s |-> x, o |-> calls, t |-> t ]))
Id == << TLCFP(vars) >>
IdNext == << TLCFP(<< e', a', got', want', n', res' >>) >>
Build(i) ==
  LET x == Msgs[i] IN
  << [ op |-> "new", cl |-> x.cl, me |-> x.me, tx |-> x.tx ] >>
    \o [ j \in 1..Len(x.at) |->
           IF i <= Small THEN [ op |-> "add", c |-> x.at[j].c, v |-> x.at[j].v ]
           ELSE [ op |-> "add", c |-> x.at[j].c, fill |-> i - Small ] ]

Init ==
  /\ e = FreshImplEnc /\ a = IdleEnc /\ got = << >> /\ want = << >> /\ n = 0 /\ res = "agree"
  /\ Says(<< >>, << [ op |-> "fe" ] >>, Id)

Start(i) ==
  /\ res = "agree" /\ n < Starts
  /\ n' = n + 1
  /\ LET set == ESet
         m == Msgs[i]
         ok == CanStart(set, m)
         w == EncMsg(set, m)
         x == ImplEncStart(set, e, m)
         y == EncStart(a, ok, w)
     IN /\ e' = x.e /\ a' = y.e
        /\ res' = IF (x.t = "ok") # (y.t = "ok") THEN "answer" ELSE "agree"
        /\ IF y.t = "ok" THEN want' = w /\ got' = << >> ELSE UNCHANGED << want, got >>
  /\ Says(Id, Build(i) \o << [ op |-> "start" ] >>, IdNext)

Pull(k, last) ==
  /\ res = "agree"
  /\ LET x == ImplEncPull(e, k, last)
         y == EncPull(a, k)
     IN \* A stream declared over before the message is complete ends the encoder.
        /\ IF x.t = "err" THEN last /\ k < Len(a.pend) /\ res' = "over"
           ELSE res' = IF x.b # y.b THEN "bytes" ELSE IF Len(x.b) > k THEN "overrun" ELSE "agree"
        /\ e' = x.e /\ a' = y.e /\ got' = got \o x.b
  /\ UNCHANGED << want, n >>
  /\ Says(Id, << [ op |-> "pull", n |-> IF k >= Len(a.pend) THEN 1000 + k - Len(a.pend) ELSE k,
                  eos |-> IF last THEN 0 ELSE -1 ] >>, IdNext)

Next ==
  \/ \E i \in 1..Len(Msgs) : Start(i)
  \/ \E k \in { IF c = 1000 THEN Len(a.pend) + 3 ELSE c : c \in Buffers }, last \in BOOLEAN : Pull(k, last)
  \/ \E k \in {Len(a.pend)} : Pull(k, FALSE)
Spec == Init /\ [][Next]_vars

Agree == res \in {"agree", "over"}
NeedExact == res = "agree" =>
               /\ ImplEncNeed(e) = Len(a.pend)
               /\ ImplEncIdle(e) = (a.pend = << >>)
               /\ a.pend = << >> => e = FreshImplEnc
Whole == res = "agree" => got \o a.pend = want
\* A header in front of every body, and its length field says how long that is.
LengthRight == want # << >> => HeaderOK(want) /\ PktLen(want) = Len(want)
=============================================================================
