------------------------------ MODULE StunAddr -----------------------------
(***************************************************************************)
(* The socket address decoder and encoder as they are built.  MCItem       *)
(* checks that they refine those of StunItem, whose states are the bytes   *)
(* taken and the bytes to come.                                            *)
(***************************************************************************)
EXTENDS StunItem

(* SocketAddrDecoder: decoders for a byte, the family, the port and the      *)
(* address, whose length is set once the family is known.                    *)
(* AddrDefects puts in errors of the kind such a decoder can have:           *)
(*   "Family"  the family is looked at again with every chunk               *)
(*   "Stale"   the length of the address survives the address               *)
(*   "Restart" an encoder that is busy starts those of its parts which are   *)
(*             idle before it refuses (D15)                                  *)
CONSTANT AddrDefects
HasA(x) == x \in AddrDefects

\* A decoder of a fixed number of bytes: [n, b]; a new address decoder has none to fill.
Cell(n) == [ n |-> n, b |-> << >> ]
CellNeed(x) == x.n - Len(x.b)
FreshAddrDec == << Cell(1), Cell(1), Cell(2), Cell(0) >>

AddrDecIdle(d) == CellNeed(d[3]) = 0 /\ CellNeed(d[4]) = 0
AddrDecNeed(d) == CellNeed(d[1]) + CellNeed(d[2]) + CellNeed(d[3]) + CellNeed(d[4])

\* One decoder after the other takes what it needs: [t, n, d, stop].
AddrCell(r, i, b, eos) ==
  IF r.stop \/ CellNeed(r.d[i]) = 0 THEN r
  ELSE LET k == Min2(CellNeed(r.d[i]), Len(b) - r.n)
           y == [ r EXCEPT !.n = @ + k, !.d[i].b = @ \o SubSeq(b, r.n + 1, r.n + k) ]
       IN IF CellNeed(y.d[i]) = 0 THEN y
          ELSE [ y EXCEPT !.stop = TRUE, !.t = IF eos = -2 \/ eos = 0 THEN "err" ELSE "ok" ]

AddrDecFeed(d, b, eos) ==
  LET r0 == [ t |-> "ok", n |-> 0, d |-> d, stop |-> FALSE ]
      r1 == AddrCell(r0, 1, b, eos)
      r2 == AddrCell(r1, 2, b, eos)
      fam == r2.d[2].b
      known == CellNeed(d[2]) = 0 /\ ~HasA("Family")
      r3 == IF r2.stop \/ known THEN r2
            ELSE IF fam = << 1 >> THEN [ r2 EXCEPT !.d[4] = Cell(4) ]
            ELSE IF fam = << 2 >> THEN [ r2 EXCEPT !.d[4] = Cell(16) ]
            ELSE [ r2 EXCEPT !.t = "err", !.stop = TRUE ]
  IN AddrCell(AddrCell(r3, 3, b, eos), 4, b, eos)

\* The value, if all is there, and the decoder for the next.
AddrDecFin(d) ==
  IF AddrDecNeed(d) # 0 \/ d[4].n = 0 THEN [ t |-> "err", v |-> Bad, d |-> d ]
  ELSE [ t |-> "ok", v |-> << d[2].b[1], U16At(d[3].b, 1) >> \o d[4].b,
         d |-> IF HasA("Stale") THEN << Cell(1), Cell(1), Cell(2), Cell(d[4].n) >> ELSE FreshAddrDec ]

(* SocketAddrEncoder: encoders of a zero byte, the family, the port and the  *)
(* address, each with the bytes it still has.                                *)
IdleAddrEnc == << << >>, << >>, << >>, << >> >>
AddrParts(v) == LET w == EncAddr(v) IN << << w[1] >>, << w[2] >>, SubSeq(w, 3, 4), Drop(w, 4) >>
AddrEncBytes(e) == e[1] \o e[2] \o e[3] \o e[4]
AddrEncIdle(e) == e[4] = << >>

\* [t, e]
AddrEncStart(e, v) ==
  LET q == AddrParts(v)
      part(r, i) == IF r.t = "err" THEN r
                    ELSE IF e[i] # << >> THEN [ r EXCEPT !.t = "err" ] ELSE [ r EXCEPT !.e[i] = q[i] ]
  IN IF ~HasA("Restart") /\ ~AddrEncIdle(e) THEN [ t |-> "err", e |-> e ]
     ELSE FoldLeft(LAMBDA r, i : part(r, i), [ t |-> "ok", e |-> e ], << 1, 2, 3, 4 >>)

\* [b, e]
AddrEncPull(e, n) ==
  LET cut(r, i) == LET k == Min2(n - Len(r.b), Len(e[i]))
                   IN [ b |-> r.b \o Take(e[i], k), e |-> [ r.e EXCEPT ![i] = Drop(@, k) ] ]
  IN FoldLeft(LAMBDA r, i : cut(r, i), [ b |-> << >>, e |-> e ], << 1, 2, 3, 4 >>)
=============================================================================
