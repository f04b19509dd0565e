------------------------------- MODULE MCSet -------------------------------
(***************************************************************************)
(* Every delivery of attribute values to the value decoders as they are    *)
(* built (StunValue), one after the other, to the decoder of one type or   *)
(* to that of a set, in lockstep with those of StunItem; and every way to  *)
(* emit values.                                                            *)
(*                                                                         *)
(*   Agree    same types claimed, same bytes taken, same values, same      *)
(*            refusals; where StunItem leaves open what happens, the       *)
(*            delivery ends                                                *)
(*   Ready    ready, and in need of no bytes, exactly when a value is      *)
(*            complete; never in need of more than that takes              *)
(*   Emitted  exactly the bytes of a value come, whatever else is started  *)
(*   Clean    after a value nothing of it is left                          *)
(***************************************************************************)
EXTENDS StunValue, Json, TLCExt

CONSTANTS VSet,      \* the attribute set
          Ones,      \* the types whose own codecs are explored; 0 is the codec of the set
          Depth,     \* values per stream
          Chunks,    \* sizes of chunks and buffers; 1000 is all there is
          AnyChunk,  \* TRUE: every size
          Starts,    \* encodings started per stream
          Emit       \* print the transitions as calls of the harness

A4 == << 1, 80, 127, 0, 0, 1 >>
A6 == << 2, 443, 32, 1, 13, 184, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1 >>
\* << type, bytes >>: of every kind values, and bytes that are none, or not yet one.
Wires ==
  << << \h0001, EncAddr(A4) >>, << \h0001, EncAddr(A6) >>, << \h0020, EncAddr(A4) >>, << \h8023, << 0, 3, 1, 2 >> >>,
     << \h0006, << 117, 195, 169 >> >>, << \h0006, << >> >>, << \h0006, << 97, 255 >> >>,
     << \h0014, << 226, 130, 172 >> >>, << \h8022, << 115 >> >>, << \h0015, << 240, 159 >> >>,
     << \h0009, << 0, 0, 4, 1, 78, 111 >> >>, << \h0009, << 0, 0, 3, 0 >> >>, << \h0009, << 0, 0, 7, 0 >> >>, << \h0009, << 0, 0, 4 >> >>,
     << \h000A, << 0, 1, 128, 34 >> >>, << \h000A, << >> >>, << \h000A, << 0, 1, 128 >> >>,
     << \h0003, << 0, 0, 0, 6 >> >>, << \h000C, << 64, 0, 0, 0 >> >>, << \h000C, << 63, 255, 0, 0 >> >>,
     << \h000D, << 0, 0, 2, 88 >> >>, << \h0013, << 1, 2, 3 >> >>, << \h0013, << >> >>,
     << \h0018, << 128 >> >>, << \h0019, << 17, 0, 0, 0 >> >>, << \h001A, << >> >>, << \h0025, << >> >>,
     << \h0022, << 1, 2, 3, 4, 5, 6, 7, 8 >> >>, << \h0017, << 2, 0, 0, 0 >> >>, << \h8000, << 3, 0, 0, 0 >> >>, << \h0027, << 18, 52, 0, 0 >> >>,
     << \h0008, Zeros(19) \o << 7 >> >>, << \h8028, << 1, 2, 3, 4 >> >>, << \h7F00, << 9, 9 >> >>, << \hABCD, << >> >> >>
\* << type, value >>; the library has no constructor for values of the kinds "mi" and "fp"
Values ==
  << << \h0001, A4 >>, << \h8023, A6 >>, << \h0020, A4 >>, << \h0006, << 117, 195, 169 >> >>, << \h0006, << >> >>, << \h8022, << 115 >> >>,
     << \h0009, << 401, 78, 111 >> >>, << \h0009, << 300 >> >>, << \h000A, << 1, \h8022 >> >>, << \h000A, << >> >>,
     << \h0003, << 1, 0 >> >>, << \h000C, << \h4001 >> >>, << \h000D, << 0, 0, 2, 88 >> >>, << \h0013, << 1, 2, 3 >> >>, << \h0013, << >> >>,
     << \h0018, << 1 >> >>, << \h0019, << 17 >> >>, << \h001A, << >> >>, << \h0022, << 1, 2, 3, 4, 5, 6, 7, 8 >> >>,
     << \h0017, << 1 >> >>, << \h0027, << 4660 >> >>, << \hABCD, << 5 >> >> >>

KindOf(c) == KindInSet(VSet, c)
Knows(c) == KnownType(VSet, 0, c)
Fits(one, c) == IF one = 0 THEN Knows(c) ELSE c = one
\* The raw set knows them all: some are enough.
Picks(one, c) == Fits(one, c) /\ (VSet = "raw" => c \in {\h0001, \h000A, \h0018, \h001A, \h0013, \h7F00, \hABCD})

VARIABLES one, stream, i, pos, it, x, res, e, left
in == << one, stream >>
rd == << one, stream, i, pos, it, x >>
wr == << e, left >>
vars == << rd, res, wr >>

Says(s, calls, t) == Emit => PrintT(ToJson([ s |-> s, o |-> calls, t |-> t ]))
Id == << one, stream, i, pos, TLCFP(vars) >>
IdNext == << one, stream, i', pos', TLCFP(<< rd', res', wr' >>) >>

NewItem(o) == [ m |-> IF o = 0 THEN "set" ELSE "one", c |-> IF o = 0 THEN -1 ELSE o, k |-> IF o = 0 THEN "none" ELSE ItemKind(o),
                t |-> "ok", buf |-> << >>, end |-> FALSE, et |-> "ok", pend |-> << >>, e0 |-> FALSE, last |-> << >> ]

\* Values of fixed length may be followed by bytes that are not theirs.
Wire == IF i > Depth THEN << >>
        ELSE LET w == Wires[stream[i]] IN w[2] \o (IF FixedLen(KindOf(w[1])) >= 0 \/ KindOf(w[1]) = "addr" THEN << 0, 66 >> ELSE << >>)
Tag == IF i > Depth THEN 0 ELSE Wires[stream[i]][1]

Init ==
  /\ one \in Ones
  /\ stream \in [ 1..Depth -> { j \in 1..Len(Wires) : Picks(one, Wires[j][1]) } ]
  /\ i = 1 /\ pos = 0 /\ it = NewItem(one)
  /\ x = FreshValueDec(one, it.k) /\ e = (IF one = 0 THEN << >> ELSE EncParts(it.k))
  /\ res = "agree" /\ left = Starts
  /\ Says(<< >>, << [ op |-> "inew", c |-> IF one = 0 THEN -1 ELSE one ] >>, Id)

Begins == pos = 0 /\ it.buf = << >> /\ ~it.end
\* The decoder of a set is asked again within a value, or after it refused one.
AskAnew ==
  /\ one = 0 /\ Anew(VSet) /\ i <= Depth /\ it.k # "none" /\ it.c = Tag
  /\ res = "over" \/ (res = "agree" /\ ~Begins)
  /\ LET y == DecTag(x, one, TRUE, Tag, it.k)
     IN /\ res' = IF y.y THEN "agree" ELSE "claim"
        /\ x' = y.x
        /\ it' = [ it EXCEPT !.buf = << >>, !.end = FALSE ]
  /\ pos' = 0
  /\ UNCHANGED << in, i, wr >>
  /\ Says(Id, << [ op |-> "itag", c |-> Tag ] >>, IdNext)

\* The decoder is asked for a type: that of the next value, or another.
Ask(c) ==
  /\ res = "agree" /\ Begins /\ i <= Depth
  /\ IF one = 0 THEN (it.k = "none" \/ c # Tag) ELSE it.last = << >> /\ i = 1 /\ left = Starts /\ it.pend = << >>
  /\ LET y == DecTag(x, one, Knows(c), c, IF Knows(c) THEN KindOf(c) ELSE "none")
         knows == Fits(one, c)
     IN /\ res' = IF y.y # knows THEN "claim" ELSE "agree"
        /\ x' = y.x
        /\ it' = IF one = 0 /\ knows THEN [ it EXCEPT !.c = c, !.k = KindOf(c) ] ELSE it
  /\ UNCHANGED << in, i, pos, wr >>
  /\ Says(Id, << [ op |-> "itag", c |-> c ] >>, IdNext)

Rest == Len(Wire) - pos
Feed(n, eos) ==
  /\ res = "agree" /\ i <= Depth /\ n <= Rest /\ (one = 0 => it.k # "none" /\ it.c = Tag)
  /\ LET b == SubSeq(Wire, pos + 1, pos + n)
         says == FeedSays(it, b, eos)
         k == ItemTakes(it, b)
         y == DecFeed(x, b, eos)
     IN CASE says = "refused" ->
               /\ res' = IF y.t = "ok" THEN "not refused" ELSE "over"
               /\ UNCHANGED << it, x, pos >>
          [] says = "open" /\ (y.t # "ok" \/ y.n # Len(k)) ->
               /\ res' = IF y.t = "ok" /\ y.n > Len(k) THEN "took too much" ELSE "over"
               /\ UNCHANGED << it, x, pos >>
          [] OTHER ->
               /\ res' = IF y.t # "ok" THEN "refused" ELSE IF y.n # Len(k) THEN "consumed" ELSE "agree"
               /\ it' = [ it EXCEPT !.buf = @ \o k, !.end = @ \/ IsOver(eos) ]
               /\ pos' = pos + Len(k)
               /\ x' = y.x
  /\ UNCHANGED << in, i, wr >>
  /\ Says(Id, << [ op |-> "ifeed", b |-> SubSeq(Wire, pos + 1, pos + n), eos |-> eos ] >>, IdNext)

IsValue == ItemReady(it) /\ ItemVal(it) # Bad
Fin ==
  /\ res = "agree" /\ i <= Depth /\ it.k # "none" /\ (one = 0 => it.c = Tag)
  /\ LET y == DecFin(x, one) IN
     IF IsValue
     THEN /\ res' = IF y.t # "ok" THEN "not delivered" ELSE IF y.v # ItemVal(it) THEN "value" ELSE "agree"
          /\ it' = [ it EXCEPT !.buf = << >>, !.end = FALSE, !.last = << it.k, ItemVal(it) >>,
                               !.k = IF one = 0 THEN "none" ELSE @ ]
          /\ x' = y.x /\ i' = i + 1 /\ pos' = 0
     ELSE /\ res' = IF y.t = "ok" THEN "no value" ELSE "over"
          /\ UNCHANGED << it, x, i, pos >>
  /\ UNCHANGED << in, wr >>
  /\ Says(Id, << [ op |-> "ifin" ] >>, IdNext)

\* Encoding goes on between the values: that of the values decoded, and in some streams that of others.
StartWith(kind, v) ==
  LET y == EncStart(e, one, kind, v)
      w == EncVal(kind, v, Zeros(12))
  IN IF it.pend = << >>
     THEN /\ res' = IF y.t = "ok" THEN "agree" ELSE "not started"
          /\ it' = [ it EXCEPT !.pend = w, !.e0 = w = << >> ]
          /\ e' = y.x
     ELSE /\ res' = IF y.t = "err" THEN "agree" ELSE "started while busy"
          /\ it' = it
          /\ e' = y.x
Start(j) ==
  /\ res = "agree" /\ pos = 0 /\ ~it.end /\ it.buf = << >> /\ left > 0 /\ ~it.e0 /\ Picks(one, Values[j][1])
  /\ KindOf(Values[j][1]) = "raw" => BytesOK(Values[j][2])
  /\ \A k \in 1..Depth : \A l \in 1..(stream[k] - 1) : ~Picks(one, Wires[l][1])
  /\ StartWith(KindOf(Values[j][1]), Values[j][2])
  /\ left' = left - 1
  /\ UNCHANGED << in, i, pos, x >>
  /\ Says(Id, << [ op |-> "istart", c |-> Values[j][1], v |-> Values[j][2] ] >>, IdNext)
Again ==
  /\ res = "agree" /\ pos = 0 /\ ~it.end /\ it.buf = << >> /\ left > 0 /\ ~it.e0 /\ it.last # << >>
  /\ StartWith(it.last[1], it.last[2])
  /\ left' = left - 1
  /\ UNCHANGED << in, i, pos, x >>
  /\ Says(Id, << [ op |-> "iagain" ] >>, IdNext)
Pull(n) ==
  /\ res = "agree" /\ pos = 0 /\ ~it.end /\ it.buf = << >> /\ (it.pend # << >> \/ it.e0) /\ n <= Len(it.pend) + 1
  /\ LET y == EncPull(e, n)
         k == Min2(n, Len(it.pend))
     IN /\ res' = IF y.b # Take(it.pend, k) THEN "bytes" ELSE "agree"
        /\ it' = [ it EXCEPT !.pend = Drop(@, k), !.e0 = FALSE ]
        /\ e' = y.x
  /\ UNCHANGED << in, i, pos, x, left >>
  /\ Says(Id, << [ op |-> "ipull", n |-> n, eos |-> -1 ] >>, IdNext)

Sizes(most) == IF AnyChunk THEN 0..most ELSE { IF c = 1000 THEN most ELSE c : c \in Chunks }
Next ==
  \/ \E c \in {Tag, \h7F01, \h8029} \ {0} : Ask(c)
  \/ \E n \in Sizes(Rest), over \in {"more", "known", "over"} :
       Feed(n, IF over = "more" THEN -1 ELSE IF n <= Rest /\ over = "over" /\ n = Rest THEN -2 ELSE Rest - n)
  \/ Fin
  \/ AskAnew
  \/ \E j \in 1..Len(Values) : Start(j)
  \/ Again
  \/ \E n \in Sizes(Len(it.pend) + 1) : Pull(n)
Spec == Init /\ [][Next]_vars

Agree == res \in {"agree", "over"}
Ready ==
  res = "agree" /\ it.k # "none" =>
    LET ready == ItemReady(it)
        n == ItemNeed(it.k, it.buf)
        m == PartsNeed(x.ps)
    IN /\ PartsIdle(x.ps) = ready
       /\ (m = 0) = ready
       /\ n >= 0 /\ (it.k = "addr" => Len(it.buf) >= 2) => m \in 0..n
Emitted == res = "agree" => /\ EncBytes(e) = it.pend
                            /\ ~it.e0 => EncIdle(e) = (it.pend = << >>)
Clean == res = "agree" /\ it.buf = << >> /\ ~it.end => (IF it.k = "none" THEN x.k = "none" ELSE x.ps = PartsOf(it.k))
=============================================================================
