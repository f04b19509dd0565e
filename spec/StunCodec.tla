------------------------------ MODULE StunCodec ----------------------------
(***************************************************************************)
(* The decoder and the encoder as state machines over byte streams.        *)
(*                                                                         *)
(* Decoder [t, buf]: t = "ok", buf = bytes consumed of the current packet; *)
(* t = "dead" after an error whose consequences are left open (the stream  *)
(* was declared over inside a packet, or a result was taken too early).    *)
(*                                                                         *)
(* Encoder [t, pend]: the bytes still to be emitted; "dead" likewise.      *)
(*                                                                         *)
(* An end-of-stream indication is -1 (more may follow), -2 (the stream     *)
(* ends after this buffer) or the number of bytes that follow it.          *)
(***************************************************************************)
EXTENDS StunMessage

(* -------------------------------- decoder ------------------------------- *)
FreshDec == [ t |-> "ok", buf |-> << >> ]
DeadDec == [ t |-> "dead", buf |-> << >> ]

\* Bytes the packet starting with buf is known to still need.
Need(buf) ==
  IF Len(buf) < 4 THEN HeaderLen - Len(buf) ELSE PktLen(buf) - Len(buf)
Ready(buf) == Len(buf) >= HeaderLen /\ Len(buf) = PktLen(buf)

\* The bytes of b that belong to the packet starting with buf.
Take1(buf, b) ==
  LET hd == Take(b, Min2(Len(b), Max2(0, HeaderLen - Len(buf))))
      s == buf \o hd
  IN IF Len(s) < HeaderLen THEN hd
     ELSE Take(b, Min2(Len(b), PktLen(s) - Len(buf)))

\* Whether the indication declares the stream to end inside the packet.
Truncated(buf, b, eos) ==
  LET s == buf \o Take1(buf, b)
      left == IF Len(s) < HeaderLen THEN HeaderLen - Len(s) ELSE PktLen(s) - Len(s)
      after == IF eos = -2 THEN 0 ELSE eos
  IN eos # -1 /\ left > after

(* Feeding: [t, n, d], t = "ok" (n bytes consumed), "rejected" (the header   *)
(* is not that of a STUN packet) or "open" (truncated stream: an error, or   *)
(* "ok" with these n).                                                       *)
DecFeed(d, b, eos) ==
  LET k == Take1(d.buf, b)
      s == d.buf \o k
  IN IF d.t = "dead" THEN [ t |-> "open", n |-> -1, d |-> DeadDec ]
     ELSE IF Len(d.buf) < HeaderLen /\ Len(s) >= HeaderLen /\ ~HeaderOK(s)
     THEN [ t |-> "rejected", n |-> HeaderLen - Len(d.buf), d |-> FreshDec ]
     ELSE [ t |-> IF Truncated(d.buf, b, eos) THEN "open" ELSE "ok",
            n |-> Len(k),
            d |-> [ t |-> "ok", buf |-> s ] ]

(* Taking the result: [t, x, d], t = "packet" with its meaning x, or "early".*)
DecFin(set, only, d) ==
  IF d.t = "ok" /\ Ready(d.buf)
  THEN [ t |-> "packet", x |-> Parse(set, only, d.buf), d |-> FreshDec ]
  ELSE [ t |-> "early", x |-> [ t |-> "err" ], d |-> DeadDec ]

(* -------------------------------- encoder ------------------------------- *)
IdleEnc == [ t |-> "ok", pend |-> << >> ]
DeadEnc == [ t |-> "dead", pend |-> << >> ]

\* Starting a message whose encoding is w ("" if it cannot be encoded).
EncStart(e, ok, w) ==
  IF e.pend # << >> THEN [ t |-> "busy", e |-> e ]
  ELSE IF ~ok THEN [ t |-> "refused", e |-> e ]
  ELSE [ t |-> "ok", e |-> [ t |-> "ok", pend |-> w ] ]

\* A buffer of n bytes: [b, e].
EncPull(e, n) ==
  LET k == Min2(n, Len(e.pend))
  IN [ b |-> Take(e.pend, k), e |-> [ t |-> e.t, pend |-> Drop(e.pend, k) ] ]

(* ------------------------------ message edits --------------------------- *)
NewMsg(cl, me, tx) == [ t |-> "msg", cl |-> cl, me |-> me, tx |-> tx, at |-> << >> ]
NoMsg == [ t |-> "none", cl |-> 0, me |-> 0, tx |-> << >>, at |-> << >> ]
AddAttr(m, a) == [ m EXCEPT !.at = Append(@, a) ]

\* Attributes of the harness whose hook refuses to be encoded: first byte 0xEE.
Refuses(set, a) == set = "probe" /\ a.k /\ a.c \in ProbeTypes /\ a.v # << >> /\ a.v[1] = 238
CanStart(set, m) == Encodable(set, m) /\ \A i \in 1..Len(m.at) : ~Refuses(set, m.at[i])

FpAttr(set, m) == Attr(\h8028, FpOver(EncMsg(set, m)))
MiAttr(set, m, key) ==
  LET in == MiInput(EncMsg(set, m))
  IN [ c |-> \h0008, k |-> TRUE, v |-> HmacSha1(key, in), p |-> << >>, pre |-> in ]
CheckMi(a, key) == HmacSha1(key, a.pre) = a.v

(* --------------------------- what users observe ------------------------- *)
FirstViews(at) == { << at[i].c, at[i].v >> : i \in Firsts(at) }
View1(a) == << a.c, a.v >>
SeqView(at) == [ i \in 1..Len(at) |-> View1(at[i]) ]
Outcome(set, x) ==
  CASE x.t = "msg" ->
         [ t |-> "msg", cl |-> x.cl, me |-> x.me, tx |-> x.tx,
           at |-> SeqView(Known(x.at)), un |-> SeqView(Unknown(x.at)),
           ge |-> IF set \in {"one", "raw"} THEN {} ELSE FirstViews(Known(x.at)) ]
    [] x.t = "broken" -> [ t |-> "broken", cl |-> x.cl, me |-> x.me, tx |-> x.tx ]
    [] OTHER -> [ t |-> "err" ]

(* ----------------------------- hook calls ------------------------------- *)
\* Calls of the harness's hooks while m is encoded (phase 0) or decoded (1):
\* one per probe attribute, in order, up to and including the first failing.
ProbeIdx(at) == SelectSeq([ i \in 1..Len(at) |-> i ], LAMBDA i : at[i].k /\ at[i].c \in ProbeTypes)
HookFails(a, phase) == a.v # << >> /\ a.v[1] = (IF phase = 0 THEN 238 ELSE 221)
Types(at) == [ i \in 1..Len(at) |-> at[i].c ]
HookCall(m, i, phase) ==
  LET pre == SubSeq(m.at, 1, i - 1)
  IN [ p |-> phase, c |-> m.at[i].c, cl |-> m.cl, me |-> m.me, tx |-> m.tx,
       k |-> Types(Known(pre)), u |-> Types(Unknown(pre)) ]
HookCalls(m, phase) ==
  LET ix == ProbeIdx(m.at)
      bad == { j \in 1..Len(ix) : HookFails(m.at[ix[j]], phase) }
      n == IF bad = {} THEN Len(ix) ELSE CHOOSE j \in bad : \A k \in bad : j <= k
  IN [ j \in 1..n |-> HookCall(m, ix[j], phase) ]
=============================================================================
