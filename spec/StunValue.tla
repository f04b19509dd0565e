----------------------------- MODULE StunValue -----------------------------
(***************************************************************************)
(* The codecs of attribute values as they are built: the decoders and      *)
(* encoders of the types, put together from those of fixed numbers of      *)
(* bytes, of all the bytes there are, and of socket addresses; and those   *)
(* of attribute sets, which hold the codec of the type in progress.        *)
(* MCSet checks that they refine those of StunItem.                        *)
(***************************************************************************)
EXTENDS StunAddr

(* ValueDefects puts in errors of the kind such codecs can have:             *)
(*   "Pairs"   a list of types is decoded pair by pair: the end of the       *)
(*             stream is not noticed within a pair if it comes alone (D17)   *)
(*   "Parts"   an ERROR-CODE encoder that is busy starts those of its parts  *)
(*             which are idle before it refuses (D16)                        *)
(*   "Keep"    the decoder of a set keeps its codec after a value, and takes *)
(*             it for the next of the same type                              *)
(*   "Resume"  the decoder of a set goes on with the value it has begun when *)
(*             asked for its type once more                                  *)
(*   "Forget"  an unknown type leaves the decoder of a set with the codec    *)
(*             it had for the type before                                    *)
(*   "Over"    a value of any length ends with the first chunk that comes    *)
(*             after all its bytes are known to be there                     *)
(*   "Swap"    the encoder of a set drops a value in progress for a new one  *)
CONSTANT ValueDefects
HasV(x) == x \in ValueDefects

(* A part of a decoder: [f, n, b, e, d]                                      *)
(*   "cell"  n bytes, b of them there    "rest"  b, and whether it is over   *)
(*   "pairs" b, and whether it is over   "addr"  the d of StunAddr           *)
Part(f, n) == [ f |-> f, n |-> n, b |-> << >>, e |-> FALSE, d |-> IF f = "addr" THEN FreshAddrDec ELSE << >> ]
PartsOf(kind) ==
  CASE kind = "addr" -> << Part("addr", 0) >>
    [] kind = "err" -> << Part("cell", 4), Part("rest", 0) >>
    [] kind = "types" -> << Part(IF HasV("Pairs") THEN "pairs" ELSE "rest", 0) >>
    [] kind = "empty" -> << >>
    [] FixedLen(kind) > 0 -> << Part("cell", FixedLen(kind)) >>
    [] OTHER -> << Part("rest", 0) >>

PartIdle(p) ==
  CASE p.f = "cell" -> Len(p.b) = p.n [] p.f = "addr" -> AddrDecIdle(p.d) [] OTHER -> p.e
PartNeed(p) ==
  CASE p.f = "cell" -> p.n - Len(p.b) [] p.f = "addr" -> AddrDecNeed(p.d)
    [] p.f = "rest" -> IF p.e THEN 0 ELSE -1
    [] p.f = "pairs" -> IF p.e THEN 0 ELSE 2 - (Len(p.b) % 2)
PartsIdle(ps) == \A i \in 1..Len(ps) : PartIdle(ps[i])
\* -1: all there are.
PartsNeed(ps) == FoldLeft(LAMBDA n, p : IF n = -1 \/ PartNeed(p) = -1 THEN -1 ELSE n + PartNeed(p), 0, ps)

IsOver(eos) == eos = -2 \/ eos = 0
\* [t, n, p]
PartFeed(p, b, eos) ==
  CASE p.f = "cell" ->
         LET k == Min2(p.n - Len(p.b), Len(b))
             q == [ p EXCEPT !.b = @ \o Take(b, k) ]
         IN [ t |-> IF ~PartIdle(q) /\ IsOver(eos) THEN "err" ELSE "ok", n |-> k, p |-> q ]
    [] p.f = "rest" ->
         IF p.e THEN [ t |-> "ok", n |-> 0, p |-> p ]
         ELSE [ t |-> "ok", n |-> Len(b),
                p |-> [ p EXCEPT !.b = @ \o b,
                                 !.e = IsOver(eos) \/ (HasV("Over") /\ p.b # << >> /\ eos # -1) ] ]
    [] p.f = "pairs" ->
         IF p.e THEN [ t |-> "ok", n |-> 0, p |-> p ]
         ELSE LET q == [ p EXCEPT !.b = @ \o b ]
              IN IF b # << >> /\ (Len(q.b) % 2) = 1
                 THEN [ t |-> IF IsOver(eos) THEN "err" ELSE "ok", n |-> Len(b), p |-> q ]
                 ELSE [ t |-> "ok", n |-> Len(b), p |-> [ q EXCEPT !.e = IsOver(eos) ] ]
    [] p.f = "addr" ->
         LET y == AddrDecFeed(p.d, b, eos) IN [ t |-> y.t, n |-> y.n, p |-> [ p EXCEPT !.d = y.d ] ]

\* One part after the other; a value of no parts takes nothing.
PartsFeed(ps, b, eos) ==
  LET step(r, i) ==
        IF r.stop \/ PartIdle(ps[i]) THEN r
        ELSE LET y == PartFeed(ps[i], Drop(b, r.n), eos)
             IN [ t |-> y.t, n |-> r.n + y.n, ps |-> [ r.ps EXCEPT ![i] = y.p ],
                  stop |-> y.t # "ok" \/ ~PartIdle(y.p) ]
  IN FoldLeft(step, [ t |-> "ok", n |-> 0, ps |-> ps, stop |-> FALSE ], [ i \in 1..Len(ps) |-> i ])

\* [t, v, ps]: the value, and the parts for the next.
PartsFin(kind, ps) ==
  IF ~PartsIdle(ps) THEN [ t |-> "err", v |-> Bad, ps |-> ps ]
  ELSE IF kind = "addr"
  THEN LET y == AddrDecFin(ps[1].d) IN [ t |-> y.t, v |-> y.v, ps |-> << [ ps[1] EXCEPT !.d = y.d ] >> ]
  ELSE LET b == FoldLeft(LAMBDA x, p : x \o (IF p.f = "pairs" THEN Take(p.b, 2 * (Len(p.b) \div 2)) ELSE p.b), << >>, ps)
           v == DecVal(kind, b, 1, Len(b), Zeros(12))
       IN [ t |-> IF v = Bad THEN "err" ELSE "ok", v |-> v,
            ps |-> [ i \in 1..Len(ps) |-> [ ps[i] EXCEPT !.e = FALSE,
                       !.b = IF ps[i].f = "pairs" THEN Drop(@, 2 * (Len(@) \div 2)) ELSE << >> ] ] ]

(* The decoder of a type has its parts; that of a set also the type in        *)
(* progress, or none: [c, k, ps].  It is given to the operators as x.         *)
FreshValueDec(one, kind) == [ c |-> one, k |-> kind, ps |-> IF kind = "none" THEN << >> ELSE PartsOf(kind) ]
\* [y, x]
DecTag(x, one, known, c, kind) ==
  IF one # 0 THEN [ y |-> c = one, x |-> x ]
  ELSE IF ~known THEN [ y |-> HasV("Forget") /\ x.k # "none", x |-> x ]
  ELSE [ y |-> TRUE,
         x |-> IF x.c = c /\ (HasV("Keep") \/ (HasV("Resume") /\ x.k # "none")) THEN x ELSE [ c |-> c, k |-> kind, ps |-> PartsOf(kind) ] ]
DecFeed(x, b, eos) == LET y == PartsFeed(x.ps, b, eos) IN [ t |-> y.t, n |-> y.n, x |-> [ x EXCEPT !.ps = y.ps ] ]
DecFin(x, one) ==
  LET y == PartsFin(x.k, x.ps)
  IN [ t |-> y.t, v |-> y.v,
       x |-> IF one # 0 THEN [ x EXCEPT !.ps = y.ps ]
             ELSE IF HasV("Keep") THEN x
             ELSE IF y.t = "ok" THEN FreshValueDec(0, "none") ELSE [ x EXCEPT !.ps = y.ps ] ]

(* An encoder: a sequence of parts [z, s, b].  z "bytes": it is busy from its *)
(* start, s, until all of b, which may be empty, is emitted; z "null": never; *)
(* z "addr": the parts of StunAddr.  The encoder of a set holds that of one   *)
(* type; before its first value, none.                                        *)
EncPart(z) == [ z |-> z, s |-> FALSE, b |-> IF z = "addr" THEN IdleAddrEnc ELSE << >> ]
EncParts(kind) ==
  CASE kind = "addr" -> << EncPart("addr") >> [] kind = "empty" -> << EncPart("null") >>
    [] kind = "err" -> << EncPart("bytes"), EncPart("bytes") >> [] kind = "none" -> << >>
    [] OTHER -> << EncPart("bytes") >>
EncPartIdle(p) == CASE p.z = "addr" -> AddrEncIdle(p.b) [] p.z = "null" -> TRUE [] p.z = "bytes" -> ~p.s
EncIdle(x) == \A i \in 1..Len(x) : EncPartIdle(x[i])
EncBytes(x) == FoldLeft(LAMBDA b, p : b \o (IF p.z = "addr" THEN AddrEncBytes(p.b) ELSE p.b), << >>, x)

\* [t, p]
EncPartStart(p, w) ==
  IF p.z = "null" THEN [ t |-> "ok", p |-> p ]
  ELSE IF p.z = "addr" THEN LET y == AddrEncStart(p.b, DecAddr(w, 1, Len(w))) IN [ t |-> y.t, p |-> [ p EXCEPT !.b = y.e ] ]
  ELSE IF p.s THEN [ t |-> "err", p |-> p ] ELSE [ t |-> "ok", p |-> [ p EXCEPT !.s = TRUE, !.b = w ] ]
\* [t, x], for a value of that kind
EncStart(x, one, kind, v) ==
  LET w == EncVal(kind, v, Zeros(12))
      q == IF one # 0 THEN x ELSE EncParts(kind)
      ws == IF kind = "err" THEN << Take(w, 4), Drop(w, 4) >> ELSE << w >>
      step(r, i) == IF r.t # "ok" THEN r
                    ELSE LET y == EncPartStart(q[i], ws[i]) IN [ t |-> y.t, x |-> [ r.x EXCEPT ![i] = y.p ] ]
  IN IF ~EncIdle(x) /\ ~(one = 0 /\ HasV("Swap")) /\ ~(one # 0 /\ HasV("Parts")) THEN [ t |-> "err", x |-> x ]
     ELSE FoldLeft(step, [ t |-> "ok", x |-> q ], [ i \in 1..Len(q) |-> i ])
\* [b, x]
EncPull(x, n) ==
  LET step(r, i) ==
        IF r.stop \/ (EncPartIdle(x[i]) /\ Len(x) > 1) THEN r
        ELSE LET p == x[i]
                 k == n - Len(r.b)
             IN IF p.z = "null" THEN r
                ELSE IF p.z = "addr"
                THEN LET y == AddrEncPull(p.b, k) IN [ b |-> r.b \o y.b, x |-> [ r.x EXCEPT ![i].b = y.e ], stop |-> FALSE ]
                ELSE LET q == [ p EXCEPT !.b = Drop(@, Min2(k, Len(@))), !.s = Len(p.b) > k ]
                     IN [ b |-> r.b \o Take(p.b, Min2(k, Len(p.b))), x |-> [ r.x EXCEPT ![i] = q ], stop |-> q.s ]
  IN FoldLeft(step, [ b |-> << >>, x |-> x, stop |-> FALSE ], [ i \in 1..Len(x) |-> i ])
=============================================================================
