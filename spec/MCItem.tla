------------------------------- MODULE MCItem ------------------------------
(***************************************************************************)
(* Every delivery of streams of socket addresses to the address decoder as *)
(* it is built (StunAddr), in lockstep with the decoder of StunItem; and   *)
(* every way to emit addresses.                                            *)
(*                                                                         *)
(*   Agree       same bytes taken, same refusals, same addresses (C20)     *)
(*   RequiredOK  never more than is needed, zero iff an address is ready   *)
(*   ReadyOK     ready exactly when its last byte was taken                *)
(*   Exact       8 or 20 bytes per address, and the address they denote    *)
(*   Emitted     what is emitted decodes to the address again, whatever is *)
(*               started in between, and idle means that nothing is left   *)
(***************************************************************************)
EXTENDS StunAddr, Json, TLCExt, TLC

CONSTANTS Depth,     \* addresses per stream
          Chunks,    \* chunk sizes; 1000 is the rest of the stream
          AnyChunk,  \* TRUE: every chunk size
          Emit       \* print the transitions as calls of the harness

A6(b) == << 2, 443 >> \o [ i \in 1..16 |-> IF i = 16 THEN b ELSE 32 + i ]
Wires == << EncAddr(<< 1, 80, 127, 0, 0, 1 >>),
            EncAddr(<< 1, \hFFFF, 255, 255, 255, 255 >>),
            EncAddr(A6(1)),
            [ EncAddr(A6(0)) EXCEPT ![1] = 255 ],
            [ EncAddr(<< 1, 0, 0, 0, 0, 0 >>) EXCEPT ![1] = 1 ],
            \* an IPv4 address as IPv6
            EncAddr(<< 2, 3478, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 192, 0, 2, 1 >>),
            << 0, 0 >>, << 1, 3 >>, << 2, 255 >> >>
Good == 6
Values == << << 1, 80, 127, 0, 0, 1 >>, << 1, 0, 0, 0, 0, 0 >>, A6(1),
             << 2, 3478, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 192, 0, 2, 1 >> >>

VARIABLES stream, wire, pos, first, d, buf, res, pend, val, left, enc
in == << stream, wire >>
rd == << stream, wire, pos, first, d, buf >>
wr == << pend, val, left, enc >>
vars == << rd, res, wr >>

Says(x, calls, t) == Emit => PrintT(ToJson([ s |-> x, o |-> calls, t |-> t ]))
Id == << stream, pos, first, TLCFP(vars) >>
IdNext == << stream, pos', first', TLCFP(<< rd', res', wr' >>) >>

Init ==
  /\ stream \in [ 1..Depth -> 1..Len(Wires) ]
  /\ wire = FoldLeft(LAMBDA w, i : w \o Wires[i], << >>, stream)
  /\ pos = 0 /\ first = 1 /\ d = FreshAddrDec /\ buf = << >> /\ res = "agree"
  /\ pend = << >> /\ val = << >> /\ left = Depth + 1 /\ enc = IdleAddrEnc
  /\ Says(<< >>, << [ op |-> "inew", c |-> 0 ] >>, Id)

Rest == Len(wire) - pos
IsReady(s) == Len(s) >= 2 /\ ItemNeed("addr", s) = 0

Feed(n, e) ==
  /\ res = "agree" /\ first <= Depth /\ n <= Rest
  /\ LET b == SubSeq(wire, pos + 1, pos + n)
         eos == IF e = "more" THEN -1 ELSE Rest - n
         k == ItemTake("addr", buf, b)
         x == buf \o k
         y == AddrDecFeed(d, b, eos)
     IN IF ItemTruncated("addr", x, eos)
        THEN res' = "open" /\ UNCHANGED << d, buf, pos, first >>
        ELSE IF ItemNeed("addr", x) = -2
        THEN /\ res' = IF y.t # "err" THEN "family accepted" ELSE "refused"
             /\ UNCHANGED << d, buf, pos, first >>
        ELSE /\ res' = IF y.t # "ok" THEN "error" ELSE IF y.n # Len(k) THEN "consumed" ELSE "agree"
             /\ d' = y.d /\ buf' = x /\ pos' = pos + Len(k) /\ UNCHANGED first
  /\ UNCHANGED << in, wr >>
  /\ Says(Id, << [ op |-> "ifeed", b |-> SubSeq(wire, pos + 1, pos + n),
                   eos |-> IF e = "more" THEN -1 ELSE Rest - n ] >>, IdNext)

Fin ==
  /\ res = "agree" /\ IsReady(buf)
  /\ LET y == AddrDecFin(d)
         v == DecAddr(buf, 1, Len(buf))
     IN /\ res' = IF y.t # "ok" THEN "not delivered" ELSE IF y.v # v THEN "value" ELSE "agree"
        /\ d' = y.d
  /\ buf' = << >> /\ first' = first + 1
  /\ UNCHANGED << in, pos, wr >>
  /\ Says(Id, << [ op |-> "ifin" ] >>, IdNext)

\* Encoding goes on independently: while the first packet has not begun.  left counts the starts.
Start(i) ==
  /\ res = "agree" /\ pos = 0 /\ left > 0
  /\ LET y == AddrEncStart(enc, Values[i]) IN
     /\ IF pend = << >>
        THEN res' = (IF y.t = "ok" THEN "agree" ELSE "not started") /\ pend' = EncAddr(Values[i]) /\ val' = Values[i]
        ELSE res' = (IF y.t = "err" THEN "agree" ELSE "started while busy") /\ UNCHANGED << pend, val >>
     /\ enc' = y.e
  /\ left' = left - 1
  /\ UNCHANGED rd
  /\ Says(Id, << [ op |-> "istart", v |-> Values[i] ] >>, IdNext)
Pull(n) ==
  /\ res = "agree" /\ pos = 0 /\ pend # << >>
  /\ LET y == AddrEncPull(enc, n)
         k == Min2(n, Len(pend))
     IN /\ pend' = Drop(pend, k) /\ enc' = y.e
        /\ res' = IF y.b # Take(pend, k) THEN "bytes" ELSE "agree"
  /\ UNCHANGED << rd, val, left >>
  /\ Says(Id, << [ op |-> "ipull", n |-> n, eos |-> -1 ] >>, IdNext)

Next ==
  \/ \E n \in IF AnyChunk THEN 0..Rest ELSE { IF c = 1000 THEN Rest ELSE c : c \in Chunks },
        e \in {"more", "end"} : Feed(n, e)
  \/ Fin
  \/ stream = [ i \in 1..Depth |-> 1 ] /\ \E i \in 1..Len(Values) : Start(i)
  \/ \E n \in IF AnyChunk THEN 0..21 ELSE Chunks : Pull(n)
Spec == Init /\ [][Next]_vars

Agree == res \in {"agree", "open", "refused"}
ReadyOK == res = "agree" => AddrDecIdle(d) = IsReady(buf)
RequiredOK == res = "agree" => /\ AddrDecNeed(d) <= Max2(ItemNeed("addr", buf), 0)
                               /\ (AddrDecNeed(d) = 0) = IsReady(buf)
Exact == res = "agree" /\ IsReady(buf) =>
           /\ Len(buf) \in {8, 20}
           /\ Dom("addr", DecAddr(buf, 1, Len(buf)))
           /\ Drop(EncAddr(DecAddr(buf, 1, Len(buf))), 1) = Drop(buf, 1)
Emitted == res = "agree" => /\ AddrEncBytes(enc) = pend /\ AddrEncIdle(enc) = (pend = << >>)
                            /\ pend # << >> => LET w == EncAddr(val) IN DecAddr(w, 1, Len(w)) = val /\ pend = Drop(w, Len(w) - Len(pend))
Clean == buf = << >> /\ res = "agree" => d = FreshAddrDec
=============================================================================
