------------------------------ MODULE TraceStun ----------------------------
(***************************************************************************)
(* Validation of traces recorded from the real code.                       *)
(*                                                                         *)
(* A trace file holds sessions; a session is the sequence of API calls the *)
(* harness made on one decoder, one encoder, one current message and one   *)
(* single-value codec, each call with what it returned (field r).  Every   *)
(* session is an initial state; each step replays one call on the          *)
(* specification (StunCodec) and lets the judge of property Prop compare.  *)
(*                                                                         *)
(* Two kinds of judgement are used: comparing an observation with the      *)
(* specification's, and - where a property relates observations with each  *)
(* other (round trips, splitting, reuse) - comparing observations, so that *)
(* a judge only objects to what its property is about.                     *)
(***************************************************************************)
EXTENDS StunCodec, StunItem, Json, IOUtils

CONSTANTS Prop,        \* property to judge, "C01".. "C23"
          File,        \* trace file
          KnownIds     \* ids of the sessions of known findings

Sessions == ndJsonDeserialize(File)

VARIABLES si, ei, st, viol
vars == << si, ei, st, viol >>

Has(r, f) == f \in DOMAIN r
Opt(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

(* ------------------------------ trace state ----------------------------- *)
(* cur    current message; built: made with add calls; src: the packet it   *)
(*        was decoded from; off: the code's message is not the              *)
(*        specification's (an earlier judgement of some property)           *)
(* mis    << what was signed, value >> of its MESSAGE-INTEGRITYs            *)
(* out    bytes the code encoded cur to, << >> if it has not                *)
(* enc    encoder; tot, pulled, encm: all bytes of the message in progress, *)
(*        those emitted, the message                                        *)
(* labs   observations by label: equal labels must mean equal observations  *)
(* hacc   hook calls since the current packet began                         *)
(* bank, slots   attributes and messages put aside; of an attribute id says  *)
(*        which value it is a clone of                                      *)
(* same   encodings by message: equal messages must mean equal encodings     *)
NoItem == [ m |-> "one", c |-> -1, k |-> "none", t |-> "dead", buf |-> << >>, end |-> FALSE,
            et |-> "dead", pend |-> << >>, e0 |-> FALSE, last |-> << >> ]
NoAttr == [ c |-> -1, v |-> << >>, id |-> << >>, pre |-> << >> ]
NoSlot == [ cur |-> NoMsg, built |-> FALSE, src |-> << >>, off |-> FALSE, mis |-> << >>, out |-> << >> ]
St0 == [ cur |-> NoMsg, built |-> FALSE, src |-> << >>, off |-> FALSE, mis |-> << >>,
         out |-> << >>, dec |-> FreshDec, enc |-> IdleEnc, tot |-> << >>, pulled |-> << >>,
         encm |-> NoMsg, encbuilt |-> FALSE, encsrc |-> << >>, encoff |-> FALSE,
         labs |-> << >>, hacc |-> << >>, lastmsg |-> FALSE, item |-> NoItem,
         bank |-> [ i \in 0..5 |-> NoAttr ], slots |-> [ i \in 0..5 |-> NoSlot ], same |-> << >> ]

(* --------------------------- observed outcomes -------------------------- *)
Norm(r) ==
  CASE r.t = "msg" ->
         [ t |-> "msg", cl |-> r.cl, me |-> r.me, tx |-> r.tx, at |-> r.at, un |-> r.un,
           ge |-> { r.ge[i] : i \in 1..Len(r.ge) } ]
    [] r.t = "broken" -> [ t |-> "broken", cl |-> r.cl, me |-> r.me, tx |-> r.tx ]
    [] r.t = "ok" /\ Has(r, "b") -> [ t |-> "ok", b |-> r.b ]
    [] OTHER -> [ t |-> r.t ]

\* TLVs of packet s: << type, index of the value, length >>; stops where they end.
Tlvs(s) ==
  LET step(k) ==
        LET i == k.i IN
        IF Len(s) - i + 1 < 4 THEN k
        ELSE LET n == U16At(s, i + 2) IN
             IF 4 + Padded(n) > Len(s) - i + 1 THEN [ k EXCEPT !.i = Len(s) + 1 ]
             ELSE [ i |-> i + 4 + Padded(n), q |-> Append(k.q, << U16At(s, i), i + 4, n >>) ]
  IN FoldLeft(LAMBDA k, j : step(k), [ i |-> 21, q |-> << >> ], Steps(s)).q

SelTlvs(s, c) == SelectSeq(Tlvs(s), LAMBDA q : q[1] = c)
TlvPrefix(s, q) == SubSeq(s, 1, q[2] - 5)
TlvValue(s, q) == SubSeq(s, q[2], q[2] + q[3] - 1)

MisOf(S, s) ==
  IF S.set = "raw" \/ ~KnownType(S.set, S.only, \h0008) THEN << >>
  ELSE LET q == SelTlvs(s, \h0008)
       IN [ j \in 1..Len(q) |-> << MiInput(TlvPrefix(s, q[j])), TlvValue(s, q[j]) >> ]

(* One outcome of decoding: pkt the packet, done: complete (or its header    *)
(* rejected), x its meaning, r what was observed, e the call.                *)
Out(S, pkt, done, r, lab, rt) ==
  [ pkt |-> pkt, done |-> done, r |-> r, lab |-> lab, rt |-> rt,
    x |-> IF done THEN Parse(S.set, S.only, pkt) ELSE [ t |-> "open" ] ]

\* The outcomes of a call and the decoder after it.
DecStep(S, s, e) ==
  LET lab == Opt(e, "lab", 0)
      rt == Opt(e, "rt", 0) = 1
      dead(o) == [ outs |-> o, d |-> DeadDec, over |-> FALSE ]
  IN
  CASE e.op \in {"feed", "dec"} ->
         LET f == DecFeed(s.dec, e.b, IF e.op = "dec" THEN -2 ELSE e.eos)
             hd == Take(s.dec.buf \o e.b, HeaderLen)
         IN CASE f.t = "rejected" ->
                   [ outs |-> << Out(S, hd, TRUE, e.r, lab, rt) >>,
                     d |-> IF e.r.t = "ok" THEN DeadDec ELSE FreshDec, over |-> FALSE ]
              [] f.t = "open" ->
                   IF e.op = "dec" THEN dead(<< Out(S, f.d.buf, FALSE, e.r, lab, rt) >>)
                   ELSE IF e.r.t = "ok" /\ e.r.n = f.n
                        THEN [ outs |-> << >>, d |-> f.d, over |-> FALSE ] ELSE dead(<< >>)
              [] f.t = "ok" /\ e.op = "feed" ->
                   IF e.r.t = "ok" /\ e.r.n = f.n
                   THEN [ outs |-> << >>, d |-> f.d, over |-> FALSE ]
                   ELSE dead(IF Len(f.d.buf) >= HeaderLen
                             THEN << Out(S, f.d.buf, Ready(f.d.buf), e.r, lab, rt) >> ELSE << >>)
              [] f.t = "ok" /\ e.op = "dec" /\ f.n < Len(e.b) ->
                   [ outs |-> << >>, d |-> IF e.r.t = "err" THEN f.d ELSE DeadDec, over |-> TRUE ]
              [] OTHER ->
                   [ outs |-> << Out(S, f.d.buf, TRUE, e.r, lab, rt) >>,
                     d |-> IF e.r.t = "err" THEN DeadDec ELSE FreshDec, over |-> FALSE ]
    [] e.op = "fin" ->
         LET ok == s.dec.t = "ok" /\ Ready(s.dec.buf)
         IN [ outs |-> << Out(S, s.dec.buf, ok, e.r, lab, rt) >>,
              d |-> IF ok /\ e.r.t # "err" THEN FreshDec ELSE DeadDec, over |-> FALSE ]
    [] e.op = "fd" -> [ outs |-> << >>, d |-> FreshDec, over |-> FALSE ]
    [] OTHER -> [ outs |-> << >>, d |-> s.dec, over |-> FALSE ]

\* Packet after packet from stream b, with decode_exact or through a read buffer; the decoder must
\* be fresh.
StreamOps == {"decx", "decr"}
RECURSIVE StreamOuts(_, _, _, _, _)
StreamOuts(S, e, i, pos, acc) ==
  IF i > Len(e.r.rs) THEN acc
  ELSE LET r == e.r.rs[i]
           rest == Drop(e.b, pos)
           k == Take1(<< >>, rest)
           hdbad == Len(k) >= HeaderLen /\ ~HeaderOK(k)
           done == hdbad \/ Ready(k)
           pkt == IF hdbad THEN Take(k, HeaderLen) ELSE k
           labs == Opt(e, "labs", << >>)
           o == Out(S, pkt, done, r, IF i <= Len(labs) THEN labs[i] ELSE 0, FALSE)
       IN StreamOuts(S, e, i + 1, pos + Len(pkt), Append(acc, << o, pos + Len(pkt) >>))

(* ---------------------------- observed encodings ------------------------ *)
\* The bytes the code is to emit for the current message, as far as known.
CurBytes(S, s) == IF s.out # << >> THEN s.out ELSE IF s.off THEN << >> ELSE EncMsg(S.set, s.cur)
CurCanStart(S, s) == s.out # << >> \/ CanStart(S.set, s.cur)

\* After a call: the encoder, and the complete encodings << message state, bytes >> seen.
EncStep(S, s, e) ==
  LET keep == [ s |-> s, encs |-> << >> ]
      m == [ cur |-> s.cur, built |-> s.built, src |-> s.src, off |-> s.off ]
      lost == [ s EXCEPT !.enc = DeadEnc ]
  IN
  CASE e.op \in {"enc", "start", "write"} /\ s.cur.t = "none" -> keep
    [] e.op \in {"enc", "start", "write"} /\ s.enc.t = "dead" ->
         [ s |-> s, encs |-> IF e.op # "start" /\ e.r.t = "ok" THEN << << m, e.r.b >> >> ELSE << >> ]
    [] e.op \in {"enc", "write"} ->
         IF s.enc.pend # << >> THEN IF e.r.t = "ok" THEN [ s |-> lost, encs |-> << >> ] ELSE keep
         ELSE IF e.r.t # "ok" THEN keep
         ELSE [ s |-> [ s EXCEPT !.out = e.r.b ], encs |-> << << m, e.r.b >> >> ]
    [] e.op = "start" ->
         IF s.enc.pend # << >> THEN IF e.r.t = "ok" THEN [ s |-> lost, encs |-> << >> ] ELSE keep
         ELSE IF e.r.t # "ok" THEN keep
         ELSE IF s.off /\ s.out = << >> THEN [ s |-> lost, encs |-> << >> ]
         ELSE LET w == CurBytes(S, s) IN
              [ s |-> [ s EXCEPT !.enc = [ t |-> "ok", pend |-> w ], !.tot = w, !.pulled = << >>,
                                 !.encm = s.cur, !.encbuilt = s.built, !.encsrc = s.src,
                                 !.encoff = s.off ],
                encs |-> << >> ]
    [] e.op = "pull" ->
         IF s.enc.t = "dead" THEN keep
         ELSE IF e.r.t # "ok" THEN [ s |-> lost, encs |-> << >> ]
         ELSE LET p == EncPull(s.enc, e.n)
                  all == s.pulled \o e.r.b
                  m0 == [ cur |-> s.encm, built |-> s.encbuilt, src |-> s.encsrc, off |-> s.encoff ]
              IN IF e.r.n # Len(p.b) THEN [ s |-> lost, encs |-> << >> ]
                 ELSE [ s |-> [ s EXCEPT !.enc = p.e, !.pulled = all ],
                        encs |-> IF p.e.pend = << >> /\ s.enc.pend # << >>
                                 THEN << << m0, all >> >> ELSE << >> ]
    [] e.op = "fe" -> [ s |-> [ s EXCEPT !.enc = IdleEnc ], encs |-> << >> ]
    [] OTHER -> keep

(* ----------------------------- current message -------------------------- *)
Key(e) == IF e.op \in {"addmil", "micl"} THEN LongTermKey(e.u, e.re, e.pw) ELSE e.pw

Slot(s) == [ cur |-> s.cur, built |-> s.built, src |-> s.src, off |-> s.off, mis |-> s.mis, out |-> s.out ]
Keep(x, s) == [ s EXCEPT !.cur = x.cur, !.built = x.built, !.src = x.src, !.off = x.off, !.mis = x.mis, !.out = x.out ]

MsgStep(S, s, e, outs) ==
  CASE e.op = "new" /\ e.r.t = "ok" ->
         [ s EXCEPT !.cur = NewMsg(e.cl, e.me, e.tx), !.built = TRUE, !.src = << >>, !.off = FALSE,
                    !.mis = << >>, !.out = << >> ]
    [] e.op = "add" /\ e.r.t = "ok" ->
         [ s EXCEPT !.cur = AddAttr(@, Attr(e.c, e.v)), !.out = << >>, !.built = TRUE ]
    [] e.op \in {"addfp"} /\ e.r.t = "ok" ->
         [ s EXCEPT !.cur = AddAttr(@, Attr(\h8028, e.r.v)), !.out = << >>, !.built = TRUE ]
    [] e.op \in {"addmi", "addmil"} /\ e.r.t = "ok" ->
         LET w == CurBytes(S, s)
             in == IF w = << >> THEN << >> ELSE MiInput(w)
         IN [ s EXCEPT !.cur = AddAttr(@, [ Attr(\h0008, e.r.v) EXCEPT !.pre = in ]), !.out = << >>,
                       !.built = TRUE, !.src = IF s.off THEN << >> ELSE @,
                       !.mis = Append(@, << in, e.r.v >>) ]
    [] e.op = "rebuild" /\ e.r.t = "ok" ->
         [ s EXCEPT !.cur = [ @ EXCEPT !.at = [ i \in 1..Len(Known(@)) |->
                                               [ Known(@)[i] EXCEPT !.p = << >> ] ] ],
                    !.built = TRUE, !.src = << >>, !.out = << >> ]
    [] e.op = "vadd" /\ e.r.t = "ok" ->
         LET a == s.bank[e.at] IN
         [ s EXCEPT !.cur = AddAttr(@, [ Attr(a.c, a.v) EXCEPT !.pre = a.pre ]), !.out = << >>, !.built = TRUE,
                    !.mis = IF S.set # "raw" /\ a.c = \h0008 THEN Append(@, << a.pre, a.v >>) ELSE @ ]
    [] e.op = "msw" -> [ Keep(s.slots[e.at], s) EXCEPT !.slots = [ @ EXCEPT ![e.at] = Slot(s) ] ]
    [] outs # << >> /\ outs[Len(outs)].r.t = "msg" ->
         LET o == outs[Len(outs)] IN
         IF ~o.done \/ o.x.t # "msg"
         THEN [ s EXCEPT !.off = TRUE, !.src = << >>, !.out = << >>, !.built = FALSE, !.mis = << >> ]
         ELSE [ s EXCEPT !.cur = o.x, !.src = o.pkt, !.out = << >>, !.built = FALSE,
                         !.mis = MisOf(S, o.pkt),
                         !.off = Norm(o.r) # Outcome(S.set, o.x) ]
    [] OTHER -> s

(* --------------------------- single-value codecs ------------------------ *)
Tx0 == Zeros(12)

ItemStep(S, s, e) ==
  LET it == s.item
      kind == it.k
      set(x) == [ s EXCEPT !.item = x ]
      starts(k, v) ==
        IF e.r.t # "ok" THEN s
        ELSE LET w == EncVal(k, v, Tx0) IN set([ it EXCEPT !.pend = w, !.e0 = w = << >> ])
  IN
  CASE e.op = "inew" ->
         set([ NoItem EXCEPT !.m = IF e.c = -1 THEN "set" ELSE "one", !.c = e.c,
                             !.k = IF e.c = -1 THEN "none" ELSE ItemKind(e.c), !.t = "ok", !.et = "ok" ])
    [] e.op = "itag" /\ it.m = "set" /\ (it.t = "ok" \/ Anew(S.set)) ->
         LET within == it.t # "ok" \/ it.buf # << >> \/ it.end
         IN IF e.r.t # "ok" \/ (e.r.y = 1) # KnownType(S.set, S.only, e.c) \/ (within /\ ~Anew(S.set))
            THEN set([ it EXCEPT !.t = "dead" ])
            ELSE IF e.r.y = 0 THEN (IF within THEN set([ it EXCEPT !.t = "dead" ]) ELSE s)
            ELSE set([ it EXCEPT !.t = "ok", !.c = e.c, !.k = KindInSet(S.set, e.c), !.buf = << >>, !.end = FALSE ])
    [] e.op = "ifeed" /\ it.t = "ok" ->
         IF kind = "none" THEN set([ it EXCEPT !.t = "dead" ])
         ELSE
         LET k == ItemTakes(it, e.b)
             x == [ it EXCEPT !.buf = @ \o k, !.end = @ \/ e.eos \in {-2, 0} ]
         IN IF ItemNeed(kind, x.buf) = -2
            \* Not refused yet.
            THEN set(IF e.r.t = "ok" /\ e.r.n <= Len(e.b) THEN [ it EXCEPT !.buf = @ \o Take(e.b, e.r.n) ]
                     ELSE [ it EXCEPT !.t = "dead" ])
            ELSE IF e.r.t = "ok" /\ e.r.n = Len(k)
            THEN set(x) ELSE set([ it EXCEPT !.t = "dead" ])
    [] e.op = "ifin" /\ it.t = "ok" ->
         IF kind # "none" /\ ItemReady(it) /\ ItemVal(it) # Bad /\ e.r.t = "ok"
         THEN set([ it EXCEPT !.buf = << >>, !.end = FALSE, !.last = << kind, ItemVal(it) >>,
                              !.k = IF it.m = "set" THEN "none" ELSE @ ])
         ELSE set([ it EXCEPT !.t = "dead", !.last = << >> ])
    [] e.op = "istart" /\ it.et = "ok" /\ it.pend = << >> /\ ~it.e0 ->
         starts(IF it.m = "one" THEN kind ELSE KindInSet(S.set, e.c), e.v)
    [] e.op = "iagain" /\ it.et = "ok" /\ it.pend = << >> /\ ~it.e0 ->
         IF it.last # << >> THEN starts(it.last[1], it.last[2])
         ELSE IF e.r.t = "ok" THEN set([ it EXCEPT !.et = "dead" ]) ELSE s
    [] e.op \in {"istart", "iagain"} /\ it.e0 -> set([ it EXCEPT !.et = "dead" ])
    [] e.op \in {"istart", "iagain"} /\ it.pend # << >> /\ e.r.t = "ok" -> set([ it EXCEPT !.et = "dead" ])
    [] e.op = "ipull" /\ it.et = "ok" ->
         LET k == Min2(e.n, Len(it.pend)) IN
         IF e.r.t = "ok" /\ e.r.n = k THEN set([ it EXCEPT !.pend = Drop(@, k), !.e0 = FALSE ])
         ELSE set([ it EXCEPT !.et = "dead" ])
    [] OTHER -> s

(* ------------------------ values that were put aside -------------------- *)
\* ei: the number of the call, which tells values apart
AsideStep(S, s, e, i) ==
  LET put(a) == [ s EXCEPT !.bank = [ @ EXCEPT ![e.to] = a ] ]
      id == << i >>
  IN
  CASE e.op = "vmk" /\ e.r.t = "ok" -> put([ c |-> e.c, v |-> e.v, id |-> id, pre |-> << >> ])
    [] e.op = "vway" /\ e.r.t = "ok" ->
         put([ c |-> CASE e.k = "static" -> \h8022 [] e.k = "error" -> \h0009 [] e.k = "roomy" -> e.c [] OTHER -> \h000D,
               v |-> IF e.k = "error" THEN e.r.v ELSE e.v, id |-> id, pre |-> << >> ])
    [] e.op = "vdec" /\ e.r.t = "ok" ->
         LET v == DecVal(KindInSet(S.set, e.c), e.b, 1, Len(e.b), Tx0)
         IN put([ c |-> e.c, v |-> IF v = Bad THEN e.r.v ELSE v, id |-> id, pre |-> << >> ])
    [] e.op = "vtake" /\ e.r.t = "ok" ->
         LET at == Known(s.cur.at) IN
         put(IF s.off \/ e.i >= Len(at) THEN [ c |-> e.r.c, v |-> e.r.v, id |-> id, pre |-> << >> ]
             ELSE [ c |-> at[e.i + 1].c, v |-> at[e.i + 1].v, id |-> id, pre |-> at[e.i + 1].pre ])
    [] e.op = "vcp" /\ e.r.t = "ok" -> put(s.bank[e.at])
    [] e.op = "mcp" /\ e.r.t = "ok" -> [ s EXCEPT !.slots = [ @ EXCEPT ![e.to] = Slot(s) ] ]
    [] OTHER -> s

(* --------------------------------- a step ------------------------------- *)
RECURSIVE AddLabs(_, _, _)
\* labs: function from labels to observations; lo: sequence of << label, observation >>.
AddLabs(labs, lo, i) ==
  IF i > Len(lo) THEN labs
  ELSE AddLabs(IF lo[i][1] = 0 \/ lo[i][1] \in DOMAIN labs THEN labs
               ELSE labs @@ (lo[i][1] :> lo[i][2]), lo, i + 1)
LabClash(labs, lo) ==
  \E i \in 1..Len(lo) :
     /\ lo[i][1] # 0
     /\ \/ lo[i][1] \in DOMAIN labs /\ labs[lo[i][1]] # lo[i][2]
        \/ \E j \in 1..(i - 1) : lo[j][1] = lo[i][1] /\ lo[j][2] # lo[i][2]

Encoded(p) == << p[1].cur, p[2] >>
AddSame(same, encs) ==
  IF encs = << >> \/ encs[1][1].off \/ \E i \in 1..Len(same) : same[i][1] = encs[1][1].cur THEN same
  ELSE Append(same, Encoded(encs[1]))

StepOf(S, s, e, i) ==
  IF e.r.t = "panic"
  THEN [ s |-> s, outs |-> << >>, pos |-> << >>, encs |-> << >>, lo |-> << >>, over |-> FALSE,
         hooks |-> << >> ]
  ELSE
  LET so == IF e.op \in StreamOps THEN StreamOuts(S, e, 1, 0, << >>) ELSE << >>
      ds == DecStep(S, s, e)
      outs == IF e.op \in StreamOps THEN [ j \in 1..Len(so) |-> so[j][1] ] ELSE ds.outs
      es == EncStep(S, s, e)
      s1 == MsgStep(S, es.s, e, outs)
      s2 == AsideStep(S, ItemStep(S, s1, e), e, i)
      hooks == IF Has(e.r, "h") THEN s.hacc \o e.r.h ELSE << >>
      lab == Opt(e, "lab", 0)
      lo == IF lab # 0 /\ e.op \in {"enc", "start", "look"} THEN << << lab, Norm(e.r) >> >>
            ELSE IF lab # 0 /\ e.op = "pull"
                 THEN [ j \in 1..Len(es.encs) |-> << lab, [ t |-> "ok", b |-> es.encs[j][2] ] >> ]
            ELSE IF lab # 0 /\ e.op = "write"
                 THEN IF e.r.t = "ok" THEN << << lab, Norm(e.r.v) >> >> ELSE << >>
            ELSE IF lab # 0 /\ e.op \in {"mic", "micl"}
                 THEN << << lab, IF e.r.t = "ok" THEN [ t |-> "ok", rs |-> e.r.rs ] ELSE [ t |-> e.r.t ] >> >>
            ELSE [ j \in 1..Len(outs) |-> << outs[j].lab, Norm(outs[j].r) >> ]
  IN [ s |-> [ s2 EXCEPT !.dec = IF e.op \in StreamOps
                                 THEN (IF Len(outs) = e.k /\ \A j \in 1..Len(outs) :
                                            outs[j].done /\ outs[j].r.t # "err"
                                       THEN FreshDec ELSE DeadDec)
                                 ELSE ds.d,
                         !.labs = AddLabs(@, lo, 1),
                         !.same = IF Prop = "C23" THEN AddSame(@, es.encs) ELSE @,
                         !.hacc = IF e.op = "feed" /\ outs = << >> THEN hooks ELSE << >>,
                         !.lastmsg = IF outs = << >> THEN @ ELSE outs[Len(outs)].r.t = "msg" ],
       outs |-> outs, pos |-> [ j \in 1..Len(so) |-> so[j][2] ],
       encs |-> es.encs, lo |-> lo, over |-> ds.over, hooks |-> hooks ]

(* -------------------------------- judges -------------------------------- *)
\* A judge yields the set of its objections to a call.
If(c, why) == IF c THEN {why} ELSE {}
Every(seq, J(_)) == UNION { J(seq[i]) : i \in 1..Len(seq) }
IsItem(o) == o.r.t \in {"msg", "broken"}
DecOps == {"feed", "dec", "fin", "decx", "decr"}
SameIds(r, x) == r.cl = x.cl /\ r.me = x.me /\ r.tx = x.tx

\* What the current message must look like.
LookBad(S, s, e) ==
  /\ e.op = "look" /\ ~s.off /\ s.cur.t = "msg"
  /\ Norm(e.r) # Outcome(S.set, s.cur)

J01(S, s, e, n) ==
  Every(n.outs, LAMBDA o :
     IF o.done /\ HeaderOK(o.pkt)
     THEN If(~IsItem(o), "type refused")
          \cup If(IsItem(o) /\ (o.r.cl # TypeClass(U16At(o.pkt, 1)) \/ o.r.me # TypeMethod(U16At(o.pkt, 1))),
                  "class or method")
     ELSE {})
  \cup Every(n.encs, LAMBDA p :
     If(Len(p[2]) < 2 \/ U16At(p[2], 1) # TypeBits(p[1].cur.cl, p[1].cur.me), "type bits"))

J02(S, s, e, n) ==
  Every(n.outs, LAMBDA o :
     IF ~o.done THEN {}
     ELSE If(HeaderOK(o.pkt) # IsItem(o), "header acceptance")
          \cup If(IsItem(o) /\ ~SameIds(o.r, [ cl |-> TypeClass(U16At(o.pkt, 1)),
                                             me |-> TypeMethod(U16At(o.pkt, 1)),
                                             tx |-> SubSeq(o.pkt, 9, 20) ]), "header fields"))
  \cup Every(n.encs, LAMBDA p :
     If(Len(p[2]) < HeaderLen \/ Take(p[2], HeaderLen)
            # Header(p[1].cur.cl, p[1].cur.me, Len(p[2]) - HeaderLen, p[1].cur.tx), "encoded header"))

J03(S, s, e, n) ==
  Every(n.outs, LAMBDA o :
     If(o.rt /\ ~s.off /\ Norm(o.r) # Outcome(S.set, s.cur), "round trip"))
  \cup If(e.op \in {"enc", "start"} /\ ~s.off /\ s.cur.t = "msg" /\ s.enc = IdleEnc
          /\ CanStart(S.set, s.cur) /\ e.r.t # "ok", "not encoded")
  \cup Every(n.encs, LAMBDA p :
     If(~p[1].built /\ ~p[1].off /\ p[1].src # << >> /\ Canonical(S.set, S.only, p[1].src)
          /\ p[2] # p[1].src, "encoded again"))

J04(S, s, e, n) ==
  Every(n.encs, LAMBDA p :
     If(~p[1].built /\ p[1].src # << >> /\ Canonical(S.set, S.only, p[1].src)
          /\ p[2] # p[1].src, "not lossless"))
  \* What is added to a received message follows the received bytes.
  \cup Every(n.encs, LAMBDA p :
     If(p[1].built /\ ~p[1].off /\ p[1].src # << >> /\ Canonical(S.set, S.only, p[1].src)
          /\ (Take(p[2], 2) # Take(p[1].src, 2) \/ SubSeq(p[2], 5, Len(p[1].src)) # Drop(p[1].src, 4)),
        "received bytes changed by adding to the message"))
  \cup If(e.op \in {"enc", "start"} /\ ~s.built /\ s.src # << >> /\ s.enc = IdleEnc /\ e.r.t # "ok",
          "received message not encoded")

J05(S, s, e, n) ==
  If(LabClash(s.labs, n.lo), "split changes the outcome")
  \cup (IF e.op = "feed" /\ s.dec.t = "ok"
        THEN LET f == DecFeed(s.dec, e.b, e.eos) IN
             CASE f.t = "ok" -> If(e.r.t # "ok", "refused a part")
                                \cup If(e.r.t = "ok" /\ e.r.n # f.n, "consumed")
                                \cup If(e.r.t = "ok" /\ (e.r.idle = 1) # Ready(f.d.buf), "readiness")
               [] f.t = "open" -> If(e.r.t = "ok" /\ e.r.n > f.n, "consumed too much")
               [] OTHER -> {}
        ELSE {})
  \cup If(n.over /\ s.dec.t = "ok" /\ e.r.t # "err", "bytes of the next packet")

J06(S, s, e, n) ==
  If(LabClash(s.labs, n.lo), "buffers change the bytes")
  \cup (IF e.op = "start" /\ n.s.enc.t = "ok"
        THEN If(e.r.ex # Len(n.s.enc.pend) \/ e.r.rq # e.r.ex, "required bytes")
             \cup If((e.r.idle = 1) # (n.s.enc.pend = << >>), "idle")
        ELSE {})
  \cup (IF e.op = "enc" /\ s.enc = IdleEnc /\ s.cur.t = "msg"
        THEN If(e.r.ex # 0 \/ e.r.rq # 0 \/ e.r.idle # 1, "not idle after a whole message") ELSE {})
  \cup (IF e.op = "pull" /\ s.enc.t = "ok" /\ e.eos = -1
        THEN LET p == EncPull(s.enc, e.n) IN
             If(e.r.t # "ok", "refused to go on")
             \cup If(e.r.t = "ok" /\ (e.r.n # Len(p.b) \/ e.r.b # p.b), "bytes")
             \cup If(e.r.ex # Len(p.e.pend) \/ e.r.rq # e.r.ex, "required bytes")
             \cup If((e.r.idle = 1) # (p.e.pend = << >>), "idle")
        ELSE {})

J07(S, s, e, n) ==
  If(LabClash(s.labs, n.lo), "history changes the outcome")
  \cup Every(n.outs, LAMBDA o :
         \* Readiness of a new decoder: nothing of the next packet has been consumed.
         If(o.done /\ n.s.dec = FreshDec /\ e.op # "feed" /\ o.r.idle # 0, "ready for nothing"))
  \cup (IF e.op = "feed" /\ s.dec.t = "ok" /\ DecFeed(s.dec, e.b, e.eos).t = "ok"
        THEN LET f == DecFeed(s.dec, e.b, e.eos) IN
             If(e.r.t # "ok" \/ e.r.n # f.n, "consumption depends on the history")
        ELSE {})

J08(S, s, e, n) ==
  Every(n.outs, LAMBDA o :
     IF ~o.done \/ o.x.t = "err" THEN {}
     ELSE If(o.x.t = "broken" /\ o.r.t # "broken", "malformed body")
          \cup If(o.x.t = "broken" /\ o.r.t = "broken" /\ ~SameIds(o.r, o.x), "ids")
          \cup If(o.x.t = "msg" /\ o.r.t # "msg", "well-formed body"))
  \cup (IF e.op = "feed" /\ s.dec.t = "ok" /\ DecFeed(s.dec, e.b, e.eos).t = "ok"
        THEN If(e.r.t # "ok" \/ e.r.n # DecFeed(s.dec, e.b, e.eos).n, "consumed") ELSE {})

J09(S, s, e, n) ==
  (CASE e.op = "feed" -> If(e.r.t = "ok" /\ e.r.n > Len(e.b), "over-read")
     [] e.op = "pull" -> If(e.r.t = "ok" /\ (e.r.n > e.n \/ e.r.over = 1), "over-write")
     [] e.op = "ifeed" -> If(e.r.t = "ok" /\ e.r.n > Len(e.b), "over-read")
     [] e.op = "ipull" -> If(e.r.t = "ok" /\ (e.r.n > e.n \/ e.r.over = 1), "over-write")
     [] OTHER -> {})
  \cup Every(n.outs, LAMBDA o : If(~o.done /\ o.r.t = "msg" /\ s.dec.t = "ok", "message from a part"))

XTypes == { c \in AllTypes : Kind[c] = "xaddr" }
XViews(S, at) == SelectSeq(at, LAMBDA a : KindIn(S.set, a[1]) = "xaddr")
\* Of every masked address in the bytes: the wire value.
XWire(S, b) ==
  LET q == SelectSeq(Tlvs(b), LAMBDA q : q[1] \in XTypes /\ KnownType(S.set, S.only, q[1]))
  IN [ i \in 1..Len(q) |-> TlvValue(b, q[i]) ]
J10(S, s, e, n) ==
  (IF e.op = "xor" /\ e.r.t = "ok"
   THEN If(e.r.y # XorAddr(e.v, e.tx), "mask") \cup If(e.r.z # e.v, "not its own inverse")
   ELSE {})
  \cup If(LookBad(S, s, e), "message altered")
  \cup If(LabClash(s.labs, n.lo), "message altered by encoding")
  \cup Every(n.outs, LAMBDA o :
         IF ~o.done \/ o.x.t # "msg" THEN {}
         ELSE If(o.r.t # "msg", "masked address refused")
              \cup If(o.r.t = "msg" /\ XViews(S, o.r.at) # XViews(S, SeqView(Known(o.x.at))), "decoded address"))
  \cup Every(n.encs, LAMBDA p :
         LET m == p[1].cur
             at == SelectSeq(m.at, LAMBDA a : a.k /\ KindIn(S.set, a.c) = "xaddr")
         IN If(~p[1].off /\ S.set # "raw"
               /\ XWire(S, p[2]) # [ i \in 1..Len(at) |-> EncVal("xaddr", at[i].v, m.tx) ], "encoded address"))

FpBad(S, pkt) ==
  /\ S.set # "raw" /\ KnownType(S.set, S.only, \h8028)
  /\ LET q == SelTlvs(pkt, \h8028) IN
     \E i \in 1..Len(q) : TlvValue(pkt, q[i]) # FpOver(TlvPrefix(pkt, q[i]))
J11(S, s, e, n) ==
  (IF e.op = "addfp" /\ s.cur.t = "msg" /\ e.r.t # "inexp" /\ CurCanStart(S, s) /\ ~s.off
   THEN If(e.r.t # "ok", "not created")
        \cup If(e.r.t = "ok" /\ e.r.v # FpOver(CurBytes(S, s)), "created value")
   ELSE {})
  \cup Every(n.outs, LAMBDA o :
         IF ~o.done \/ o.x.t = "err" THEN {}
         ELSE If(o.r.t = "msg" /\ FpBad(S, o.pkt), "mismatch accepted")
              \cup If(o.rt /\ o.r.t # "msg", "appended fingerprint refused")
              \cup If(o.x.t = "msg" /\ o.r.t # "msg", "matching fingerprint refused"))

J12(S, s, e, n) ==
  (IF e.op \in {"addmi", "addmil"} /\ s.cur.t = "msg" /\ e.r.t # "inexp" /\ CurCanStart(S, s) /\ ~s.off
   THEN If(e.r.t # "ok", "not created")
        \cup If(e.r.t = "ok" /\ e.r.v # HmacSha1(Key(e), MiInput(CurBytes(S, s))), "created value")
   ELSE {})
  \cup (IF e.op \in {"mic", "micl"} /\ e.r.t = "ok" /\ ~(s.off /\ s.src = << >>)
        THEN If(e.r.rs # [ i \in 1..Len(s.mis) |->
                            IF HmacSha1(Key(e), s.mis[i][1]) = s.mis[i][2] THEN 0 ELSE 401 ], "verdict")
        ELSE {})
  \cup Every(n.outs, LAMBDA o : If(o.done /\ o.x.t = "msg" /\ o.r.t # "msg", "signed message refused"))

J13(S, s, e, n) ==
  If(e.op = "add" /\ e.r.t = "ok" /\ (e.r.c # e.c \/ e.r.v # e.v), "fields")
  \cup Every(n.outs, LAMBDA o :
         If(o.done /\ o.x.t # "err" /\ Norm(o.r) # Outcome(S.set, o.x), "decoded fields"))
  \cup Every(n.encs, LAMBDA p :
         If(p[1].built /\ ~p[1].off
            /\ Drop(p[2], HeaderLen) # EncAttrs(S.set, p[1].cur.at, p[1].cur.tx), "layout"))
  \cup (CASE e.op = "ifeed" /\ s.item.t = "ok" /\ s.item.k # "none" ->
              LET k == s.item.k  b == ItemTakes(s.item, e.b)  x == s.item.buf \o b IN
              \* What is no value may be refused as soon as it shows.
              If(ItemNeed(k, x) # -2 /\ ~ItemTruncated(k, x, e.eos)
                 /\ (DecVal(k, x, 1, Len(x), Tx0) # Bad \/ ItemNeed(k, x) > 0 \/ (ItemNeed(k, x) = -1 /\ e.eos \notin {-2, 0}))
                 /\ (e.r.t # "ok" \/ e.r.n # Len(b)), "value bytes consumed")
          [] e.op = "ifin" /\ s.item.t = "ok" /\ s.item.k # "none" ->
              IF ItemReady(s.item)
              THEN LET v == ItemVal(s.item) IN
                   If(IF v = Bad THEN e.r.t # "err" ELSE e.r.t # "ok" \/ e.r.v # v, "decoded value")
              ELSE If(e.r.t = "ok", "value from a part")
          [] e.op = "ipull" /\ s.item.et = "ok" /\ e.eos = -1 ->
              LET k == Min2(e.n, Len(s.item.pend)) IN
              If(e.r.t # "ok" \/ e.r.n # k \/ e.r.b # Take(s.item.pend, k), "encoded value")
          [] OTHER -> {})

Domain(set, c, v) == Dom(KindIn(set, c), v)
Sec8OK(secs) == Take(secs, 4) = Zeros(4)
J14(S, s, e, n) ==
  (CASE e.op = "new" -> If((e.r.t = "ok") # (e.me < 4096), "method range")
                        \cup If(e.r.t = "err" /\ e.r.inv # 1, "error kind")
     [] e.op = "meth" -> If((e.r.t = "ok") # (e.n < 4096), "method range")
                        \cup If(e.r.t = "ok" /\ e.r.n # e.n, "method value")
                        \cup If(e.r.t = "err" /\ e.r.inv # 1, "error kind")
     [] e.op = "meth8" -> If(e.r.n # e.n, "method value")
     [] e.op = "add" /\ e.r.t # "inexp" /\ S.set # "raw" ->
          If((e.r.t = "ok") # Domain(S.set, e.c, e.v), "value range")
          \cup If(e.r.t = "ok" /\ e.r.v # e.v, "value")
          \cup If(e.r.t = "err" /\ e.r.inv # 1, "error kind")
     [] e.op = "newstatic" -> If((e.r.t = "ok") # Dom("text", e.v), "value range")
                              \cup If(e.r.t = "ok" /\ e.r.v # e.v, "value")
     [] e.op = "life" -> If((e.r.t = "ok") # Sec8OK(e.secs), "lifetime range")
                         \cup If(e.r.t = "ok" /\ e.r.v # Drop(e.secs, 4), "lifetime value")
                         \cup If(e.r.t = "err" /\ e.r.inv # 1, "error kind")
     [] e.op = "life32" -> If(e.r.v # e.secs, "lifetime value")
     [] e.op = "chan" ->
          If((e.r.t = "ok") # (e.n \in \h4000..\h4FFF), "channel range")
          \cup If(e.r.t = "err" /\ e.r.inv # 1, "error kind")
          \cup If(e.r.t = "ok" /\ (e.r.n # e.n \/ e.r.nx # (IF e.n = \h4FFF THEN \h4000 ELSE e.n + 1)
                                \/ e.r.mn # \h4000 \/ e.r.mx # \h4FFF), "channel increment")
     [] e.op = "ifin" /\ s.item.t = "ok" /\ s.item.k # "none" /\ ItemReady(s.item) ->
          If((e.r.t = "ok") # (ItemVal(s.item) # Bad), "value decoder range")
     [] OTHER -> {})
  \cup Every(n.outs, LAMBDA o :
         IF ~o.done \/ o.x.t = "err" THEN {}
         ELSE If(o.r.t = "msg" /\ \E i \in 1..Len(o.r.at) : ~Domain(S.set, o.r.at[i][1], o.r.at[i][2]),
                 "decoded value outside its range")
              \cup If((o.r.t = "msg") # (o.x.t = "msg"), "decoder range"))

\* A value decoder answers that it decodes type c.
Claims(S, it, c) == IF it.m = "set" THEN KnownType(S.set, S.only, c) ELSE c = it.c

J15(S, s, e, n) ==
  (CASE e.op = "ctype" ->
          If(e.r.c # e.c \/ e.r.req # (IF e.c < 32768 THEN 1 ELSE 0) \/ e.r.opt # 1 - e.r.req, "comprehension")
     [] e.op = "raw" -> If(e.r.c # e.c \/ e.r.v # e.v \/ e.r.w # e.v, "raw attribute")
     [] e.op = "itag" -> If(e.r.t # "ok" \/ (e.r.y = 1) # Claims(S, s.item, e.c), "claimed type")
     [] OTHER -> {})
  \cup If(LookBad(S, s, e), "lookup")
  \cup Every(n.outs, LAMBDA o :
         IF ~o.done \/ o.x.t # "msg" THEN {}
         ELSE LET w == Outcome(S.set, o.x) IN
              If(o.r.t # "msg", "not decoded")
              \cup If(o.r.t = "msg" /\ [ i \in 1..Len(o.r.at) |-> o.r.at[i][1] ]
                                       # [ i \in 1..Len(w.at) |-> w.at[i][1] ], "known attributes")
              \cup If(o.r.t = "msg" /\ o.r.un # w.un, "unknown attributes")
              \cup If(o.r.t = "msg" /\ Norm(o.r).ge # w.ge, "lookup"))

J16(S, s, e, n) ==
  If(LabClash(s.labs, n.lo), "later message changed")
  \cup (IF e.op \in {"enc", "start"} /\ s.cur.t = "msg" /\ ~s.off /\ s.enc.t = "ok"
        THEN IF s.enc.pend # << >>
             THEN If(e.r.t # "err", "accepted while busy")
                  \cup If(e.r.idle # 0 \/ e.r.ex # Len(s.enc.pend), "message in progress disturbed")
             ELSE LET ok == CanStart(S.set, s.cur) IN
                  If((e.r.t = "ok") # ok, "size limit")
                  \cup If(e.r.t = "err" /\ (e.r.idle # 1 \/ e.r.ex # 0 \/ e.r.rq # 0), "not idle after refusal")
                  \cup If(e.op = "enc" /\ e.r.t = "ok" /\ e.r.idle # 1, "not idle")
        ELSE {})
  \cup (IF e.op = "pull" /\ s.enc.t = "ok" /\ e.eos = -1
        THEN LET p == EncPull(s.enc, e.n) IN
             If(e.r.t # "ok" \/ e.r.b # p.b, "bytes of the message in progress")
        ELSE {})
  \cup (IF e.op \in {"addfp", "addmi", "addmil"} /\ s.cur.t = "msg" /\ ~s.off /\ e.r.t # "inexp"
        THEN If((e.r.t = "ok") # CurCanStart(S, s), "size limit of a signed message") ELSE {})

J17(S, s, e, n) ==
  (IF e.op \in {"mic", "micl"} /\ Has(e, "want")
   THEN IF e.want = 1
        THEN If(~s.lastmsg \/ e.r.t # "ok", "signed message refused")
             \cup If(s.lastmsg /\ e.r.t = "ok" /\ (e.r.rs = << >> \/ e.r.rs[1] # 0), "genuine message fails")
        ELSE If(s.lastmsg /\ (e.r.t # "ok" \/ e.r.rs = << >> \/ e.r.rs[1] = 0), "altered message passes")
   ELSE {})
  \cup If(e.op \in {"addmi", "addmil", "addfp"} /\ e.r.t = "err" /\ ~s.off /\ CurCanStart(S, s), "not signed")
  \cup Every(n.outs, LAMBDA o : If(o.rt /\ o.r.t # "msg", "signed message refused"))

ErrTable ==
  << << "TryAlternate", 300, "Try Alternate" >>, << "BadRequest", 400, "Bad Request" >>,
     << "Unauthorized", 401, "Unauthorized" >>, << "UnknownAttribute", 420, "Unknown Attribute" >>,
     << "StaleNonce", 438, "Stale Nonce" >>, << "ServerError", 500, "Server Error" >>,
     << "Forbidden", 403, "Forbidden" >>, << "AllocationMismatch", 437, "Allocation Mismatch" >>,
     << "WrongCredentials", 441, "Wrong Credentials" >>,
     << "UnsupportedTransportProtocol", 442, "Unsupported Transport Protocol" >>,
     << "AllocationQuotaReached", 486, "Allocation Quota Reached" >>,
     << "InsufficientCapacity", 508, "Insufficient Capacity" >>,
     << "RoleConflict", 487, "Role Conflict" >>, << "MobilityForbidden", 405, "Mobility Forbidden" >>,
     << "AddressFamilyNotSupported", 440, "Address Family not Supported" >>,
     << "PeerAddressFamilyMismatch", 443, "Peer Address Family Mismatch" >> >>
MethTable ==
  << << "BINDING", 1, "binding" >>, << "ALLOCATE", 3, "allocate" >>, << "REFRESH", 4, "refresh" >>,
     << "SEND", 6, "send" >>, << "DATA", 7, "data" >>,
     << "CREATE_PERMISSION", 8, "create permission" >>, << "CHANNEL_BIND", 9, "channel bind" >> >>
TypeTable ==
  << << "MappedAddress", \h0001 >>, << "Username", \h0006 >>, << "MessageIntegrity", \h0008 >>,
     << "ErrorCode", \h0009 >>, << "UnknownAttributes", \h000A >>, << "Realm", \h0014 >>,
     << "Nonce", \h0015 >>, << "XorMappedAddress", \h0020 >>, << "XorMappedAddress2", \h8020 >>,
     << "Software", \h8022 >>, << "AlternateServer", \h8023 >>, << "Fingerprint", \h8028 >>,
     << "ChannelNumber", \h000C >>, << "Lifetime", \h000D >>, << "XorPeerAddress", \h0012 >>,
     << "Data", \h0013 >>, << "XorRelayAddress", \h0016 >>, << "EvenPort", \h0018 >>,
     << "RequestedTransport", \h0019 >>, << "DontFragment", \h001A >>,
     << "ReservationToken", \h0022 >>, << "Priority", \h0024 >>, << "UseCandidate", \h0025 >>,
     << "IceControlled", \h8029 >>, << "IceControlling", \h802A >>, << "ChangeRequest", \h0003 >>,
     << "ResponseOrigin", \h802B >>, << "ResponsePort", \h0027 >>, << "OtherAddress", \h802C >>,
     << "MobilityTicket", \h8030 >>, << "RequestedAddressFamily", \h0017 >>,
     << "AdditionalAddressFamily", \h8000 >> >>
KnownMethodName(n) == { MethTable[i][3] : i \in { j \in 1..Len(MethTable) : MethTable[j][2] = n } }
J18(S, s, e, n) ==
  CASE e.op = "consts" ->
         If({ e.r.errs[i] : i \in 1..Len(e.r.errs) }
              # { << ErrTable[i][1], ErrTable[i][2], ErrTable[i][2], ErrTable[i][3] >> : i \in 1..Len(ErrTable) },
            "error codes")
         \cup If({ e.r.meths[i] : i \in 1..Len(e.r.meths) } # { MethTable[i] : i \in 1..Len(MethTable) }, "methods")
         \cup If({ e.r.types[i] : i \in 1..Len(e.r.types) } # { TypeTable[i] : i \in 1..Len(TypeTable) }, "codepoints")
    [] e.op = "errconv" ->
         UNION { If(e.r.rows[i] # (IF e.r.rows[i][1] = "InvalidInput"
                                   THEN << "InvalidInput", 400, "Bad Request" >>
                                   ELSE << e.r.rows[i][1], 500, "Server Error" >>), "error mapping")
                 : i \in 1..Len(e.r.rows) }
         \cup If(Len(e.r.rows) # 7, "error mapping")
    [] e.op = "meth" /\ e.r.t = "ok" ->
         \* Named exactly if registered.
         LET names == { MethTable[i][3] : i \in 1..Len(MethTable) } IN
         If(IF KnownMethodName(e.n) # {} THEN e.r.d \notin KnownMethodName(e.n) ELSE e.r.d \in names, "method name")
    [] e.op = "add" -> If(e.r.t = "ok" /\ e.r.c # e.c, "type of a value")
    \* A broken message is a bad request of its sender.
    [] e.r.t = "broken" /\ Has(e.r, "ec") -> If(e.r.ec # 400, "error of a broken message")
    [] OTHER -> Every(n.encs, LAMBDA p :
         If(p[1].built /\ ~p[1].off /\ [ i \in 1..Len(Tlvs(p[2])) |-> Tlvs(p[2])[i][1] ]
                                       # Types(p[1].cur.at), "encoded type"))

RqBad(d, r) ==
  /\ d.t = "ok" /\ Has(r, "rq")
  /\ \/ r.rq = -2
     \/ r.rq > Need(d.buf)
     \/ (r.rq = 0) # Ready(d.buf)
J19(S, s, e, n) ==
  If(LabClash(s.labs, n.lo), "stream changes an outcome")
  \cup If(e.op \in {"feed", "dec", "fin", "fd"} /\ RqBad(n.s.dec, e.r), "required bytes")
  \cup (IF e.op \in StreamOps /\ s.dec = FreshDec /\ e.r.t = "ok"
        THEN UNION { LET o == n.outs[i] IN
                     If(o.done /\ (e.op = "decx" \/ IsItem(o)) /\ o.r.pos # n.pos[i], "bytes read")
                     \cup If(o.done /\ HeaderOK(o.pkt) /\ ~IsItem(o), "item not read")
                     \cup If(o.done /\ ~HeaderOK(o.pkt) /\ IsItem(o), "item from a rejected header")
                     \cup If(IsItem(o) /\ RqBad(FreshDec, o.r), "required bytes")
                   : i \in 1..Len(n.outs) }
             \cup If(Len(n.outs) < e.k /\ (n.outs = << >> \/ n.outs[Len(n.outs)].r.t # "err"), "items missing")
        ELSE {})
  \cup (IF e.op = "feed" /\ s.dec.t = "ok" /\ DecFeed(s.dec, e.b, e.eos).t = "ok"
        THEN If(e.r.t # "ok" \/ e.r.n # DecFeed(s.dec, e.b, e.eos).n, "consumed") ELSE {})
  \cup (IF e.op = "write" /\ s.enc = IdleEnc /\ s.cur.t = "msg" /\ ~s.off
        THEN If((e.r.t = "ok") # CurCanStart(S, s), "written or refused")
             \cup If(e.r.ex # 0 \/ e.r.idle # 1, "not idle after a whole message")
             \cup If(e.r.t = "ok" /\ HeaderOK(e.r.b) /\ PktLen(e.r.b) # Len(e.r.b), "length of what was written")
             \cup If(e.r.t = "ok" /\ ~HeaderOK(e.r.b), "header of what was written")
        ELSE {})

J20(S, s, e, n) ==
  LET it == s.item  kind == "addr" IN
  IF it.c # 0 /\ e.op # "inew" THEN {}
  ELSE
  CASE e.op = "ifeed" /\ it.t = "ok" ->
         LET b == ItemTake(kind, it.buf, e.b)
             x == it.buf \o b
             n1 == ItemNeed(kind, x)
             trunc == ItemTruncated(kind, x, e.eos)
         \* A family is refused before the address begins.
         IN IF n1 = -2 THEN If(IF Len(it.buf \o e.b) < 4 THEN e.r.t = "ok" /\ (e.r.n > Len(e.b) \/ e.r.didle = 1)
                               ELSE e.r.t # "err", "family accepted")
            ELSE IF trunc THEN If(e.r.t = "ok" /\ e.r.n > Len(b), "consumed")
            ELSE If(e.r.t # "ok" \/ e.r.n # Len(b), "consumed")
                 \cup If(e.r.t = "ok" /\ (e.r.didle = 1) # (Len(x) >= 2 /\ n1 = 0), "readiness")
                 \cup If(e.r.t = "ok" /\ (e.r.drq = -2 \/ (Len(x) >= 2 /\ e.r.drq > n1)
                                         \/ (e.r.drq = 0) # (Len(x) >= 2 /\ n1 = 0)), "required bytes")
    [] e.op = "ifin" /\ it.t = "ok" ->
         IF ItemReady(it)
         THEN If(e.r.t # "ok" \/ e.r.v # ItemVal(it), "decoded address")
         ELSE If(e.r.t = "ok", "address from a part")
    [] e.op = "istart" /\ it.et = "ok" /\ it.pend = << >> ->
         If(e.r.t # "ok", "not encoded")
         \cup If(e.r.t = "ok" /\ (e.r.eex # Len(n.s.item.pend) \/ e.r.erq # e.r.eex \/ e.r.eidle # 0), "required bytes")
    [] e.op = "istart" /\ it.et = "ok" /\ it.pend # << >> ->
         If(e.r.t = "ok", "accepted while busy")
         \cup If(e.r.eex # Len(it.pend) \/ e.r.erq # e.r.eex \/ e.r.eidle # 0, "address in progress disturbed")
    [] e.op = "ipull" /\ it.et = "ok" /\ e.eos = -1 ->
         LET k == Min2(e.n, Len(it.pend)) IN
         If(e.r.t # "ok" \/ e.r.n # k \/ e.r.b # Take(it.pend, k), "encoded address")
         \cup If(e.r.eex # Len(it.pend) - k \/ e.r.erq # e.r.eex \/ (e.r.eidle = 1) # (k = Len(it.pend)), "required bytes")
    [] OTHER -> {}

\* What a value decoder and a value encoder say of themselves, after a call.
ItemDecBad(it, r) ==
  IF it.t # "ok" \/ it.k = "none" THEN {}
  ELSE LET n == ItemNeed(it.k, it.buf)
           ready == ItemReady(it)
           known == it.k # "addr" \/ Len(it.buf) >= 2
       IN IF n = -2 THEN {}
          ELSE If((r.didle = 1) # ready, "readiness")
               \cup If((r.drq = 0) # ready \/ (n >= 0 /\ known /\ (r.drq = -2 \/ r.drq > n)), "required bytes")
ItemEncBad(it, r) ==
  IF it.et # "ok" THEN {}
  ELSE If(r.eex # Len(it.pend) \/ r.erq # r.eex, "bytes to come")
       \cup If(~it.e0 /\ (r.eidle = 1) # (it.pend = << >>), "idle")

J22(S, s, e, n) ==
  LET it == s.item  x == n.s.item IN
  (IF e.op \in {"inew", "itag", "ifeed", "ifin", "istart", "iagain", "ipull"} /\ e.r.t # "none"
   THEN ItemDecBad(x, e.r) \cup ItemEncBad(x, e.r) ELSE {})
  \cup
  CASE e.op = "itag" /\ it.c # 0 -> If(e.r.t # "ok" \/ (e.r.y = 1) # Claims(S, it, e.c), "claimed type")
    [] e.op = "ifeed" /\ it.t = "ok" /\ it.k # "none" ->
         LET n1 == Len(ItemTakes(it, e.b))
             says == FeedSays(it, e.b, e.eos)
         IN (CASE says = "refused" -> If(IF Len(it.buf \o e.b) < 4 THEN e.r.t = "ok" /\ (e.r.n > Len(e.b) \/ e.r.didle = 1)
                                        ELSE e.r.t # "err", "family accepted")
              [] says = "open" -> If(e.r.t = "ok" /\ e.r.n > n1, "consumed")
              [] OTHER -> If(e.r.t # "ok" \/ e.r.n # n1, "consumed"))
    [] e.op = "ifin" /\ it.t = "ok" /\ it.k # "none" ->
         IF ItemReady(it) /\ ItemVal(it) # Bad
         THEN If(e.r.t # "ok", "value refused") \cup If(e.r.t = "ok" /\ (e.r.v # ItemVal(it) \/ e.r.c # it.c), "decoded value")
         ELSE If(e.r.t = "ok", "no value")
    [] e.op = "istart" /\ it.et = "ok" /\ ~it.e0 /\ e.r.t # "inexp"
         /\ Dom(IF it.m = "one" THEN it.k ELSE KindInSet(S.set, e.c), e.v) ->
         If((e.r.t = "ok") # (it.pend = << >>), IF it.pend = << >> THEN "not encoded" ELSE "accepted while busy")
    [] e.op = "iagain" /\ it.et = "ok" /\ ~it.e0 /\ it.last # << >> ->
         If((e.r.t = "ok") # (it.pend = << >>), IF it.pend = << >> THEN "not encoded" ELSE "accepted while busy")
    [] e.op = "ipull" /\ it.et = "ok" /\ e.eos = -1 ->
         LET k == Min2(e.n, Len(it.pend)) IN
         If(e.r.t # "ok" \/ e.r.n # k \/ e.r.b # Take(it.pend, k), "encoded value")
    [] OTHER -> {}

J21(S, s, e, n) ==
  IF S.set # "probe" THEN {}
  ELSE If(LookBad(S, s, e), "message altered")
  \cup (IF e.op \in {"enc", "start"} /\ s.cur.t = "msg" /\ ~s.off /\ s.enc = IdleEnc
        THEN If(e.r.h # HookCalls(s.cur, 0), "before-encode calls")
             \cup If((e.r.t = "ok") # CanStart(S.set, s.cur), "failing hook ignored")
        ELSE {})
  \cup (IF e.op \in {"new", "add", "look", "pull", "fd", "fe", "rebuild"}
        THEN If(e.r.h # << >>, "hook called") ELSE {})
  \cup Every(n.outs, LAMBDA o :
         IF ~o.done \/ o.x.t = "err" \/ e.op \in StreamOps THEN {}
         ELSE LET x0 == Parse("probe0", S.only, o.pkt) IN
              IF x0.t # "msg" THEN {}
              ELSE If(n.hooks # HookCalls(x0, 1), "after-decode calls")
                   \cup If((o.r.t = "msg") # (o.x.t = "msg"), "failing hook ignored")
                   \cup If(o.x.t = "broken" /\ o.r.t # "broken", "failing hook"))

(* Equality: a MESSAGE-INTEGRITY also holds what it signs, so of two with    *)
(* the same digest nothing is said unless one is a clone of the other.       *)
Same(S, a, b) == a.c = b.c /\ a.v = b.v
Sure(S, a, b) == ~Same(S, a, b) \/ S.set = "raw" \/ KindIn(S.set, a.c) # "mi" \/ a.id = b.id
BadEq(x, same) == If(x[1] # (IF same THEN 1 ELSE 0), "equality")
                  \cup If(x[2] # 1 - x[1], "inequality") \cup If(same /\ x[3] # 1, "hash")
Before(x, y) == \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
IsAs(S, a, as) == as = IF S.set \in {"one", "raw"} THEN << >> ELSE << << a.c, a.v >> >>
J23(S, s, e, n) ==
  If(LookBad(S, s, e), "message altered")
  \cup If(LabClash(s.labs, n.lo), "what is done to one alters the other")
  \cup Every(n.encs, LAMBDA p :
         If(~p[1].off /\ \E i \in 1..Len(s.same) : s.same[i][1] = p[1].cur /\ s.same[i][2] # p[2],
            "equal messages are encoded differently"))
  \cup
  CASE e.op \in {"vmk", "vway", "vtake", "vcp", "vdec"} /\ e.r.t = "ok" ->
         LET a == n.s.bank[e.to] IN
         If(e.r.c # a.c \/ e.r.v # a.v, "contents of the copy")
         \cup (IF e.op = "vway" THEN BadEq(e.r.x, TRUE) ELSE {})
    [] e.op = "vadd" /\ e.r.t = "ok" ->
         LET a == s.bank[e.at] IN If(e.r.c # a.c \/ e.r.v # a.v, "contents of the copy")
    [] e.op = "vcmp" /\ e.r.t = "ok" ->
         LET a == s.bank[e.at]  b == s.bank[e.with] IN
         If(e.r.a # << a.c, a.v >> \/ e.r.b # << b.c, b.v >>, "contents")
         \cup (IF Sure(S, a, b) THEN BadEq(e.r.x, Same(S, a, b)) ELSE BadEq(e.r.x, e.r.x[1] = 1))
         \cup If(~IsAs(S, a, e.r.as) \/ ~IsAs(S, b, e.r.bs), "conversion")
    [] e.op = "cmpt" ->
         BadEq(e.r.x, e.v = e.w)
         \cup If(e.k # "class" /\ e.r.ord # (IF Before(e.v, e.w) THEN -1 ELSE IF e.v = e.w THEN 0 ELSE 1), "order")
    [] OTHER -> {}

\* Objections of the property to the call; a panic, crash or hang breaks any.
Judge(S, s, e, n) ==
  IF e.r.t = "panic" THEN {"panic, crash or hang"}
  ELSE CASE Prop = "C01" -> J01(S, s, e, n) [] Prop = "C02" -> J02(S, s, e, n)
         [] Prop = "C03" -> J03(S, s, e, n) [] Prop = "C04" -> J04(S, s, e, n)
         [] Prop = "C05" -> J05(S, s, e, n) [] Prop = "C06" -> J06(S, s, e, n)
         [] Prop = "C07" -> J07(S, s, e, n) [] Prop = "C08" -> J08(S, s, e, n)
         [] Prop = "C09" -> J09(S, s, e, n) [] Prop = "C10" -> J10(S, s, e, n)
         [] Prop = "C11" -> J11(S, s, e, n) [] Prop = "C12" -> J12(S, s, e, n)
         [] Prop = "C13" -> J13(S, s, e, n) [] Prop = "C14" -> J14(S, s, e, n)
         [] Prop = "C15" -> J15(S, s, e, n) [] Prop = "C16" -> J16(S, s, e, n)
         [] Prop = "C17" -> J17(S, s, e, n) [] Prop = "C18" -> J18(S, s, e, n)
         [] Prop = "C19" -> J19(S, s, e, n) [] Prop = "C20" -> J20(S, s, e, n)
         [] Prop = "C21" -> J21(S, s, e, n) [] Prop = "C22" -> J22(S, s, e, n)
         [] Prop = "C23" -> J23(S, s, e, n)

(* ------------------------------- behaviour ------------------------------ *)
Init == si \in 1..Len(Sessions) /\ ei = 1 /\ st = St0 /\ viol = {}

Next ==
  /\ viol = {}
  /\ ei <= Len(Sessions[si].ev)
  /\ LET S == Sessions[si]
         e == S.ev[ei]
         n == StepOf(S, st, e, ei)
         j == Judge(S, st, e, n)
         known == j # {} /\ S.id \in KnownIds
     IN /\ j # {} => PrintT(<< IF known THEN "KNOWN" ELSE "VIOL", S.id, ei, e.op, j >>)
        /\ viol' = j
        /\ st' = n.s
        /\ ei' = ei + 1
  /\ UNCHANGED si

Spec == Init /\ [][Next]_vars

\* The property holds on every step of every session but those of known findings.
Holds == viol = {} \/ Sessions[si].id \in KnownIds

\* A session's calls determine its states.
Position == << si, ei, viol # {} >>

Where == [ session |-> Sessions[si].id, event |-> ei, objections |-> viol ]
=============================================================================
