------------------------------ MODULE MCLanes ------------------------------
(***************************************************************************)
(* Decoders and encoders at work at the same time, as they are built       *)
(* (StunDecoder, StunEncoder): every interleaving of the programs of some  *)
(* lanes.  Nothing in the specification of a lane mentions another; here   *)
(* what the lanes could have in common is explicit, so that the model can  *)
(* say what is seen if they do.                                            *)
(*                                                                         *)
(*   Own      a lane's results are those it has alone                      *)
(*   Done     when all calls are made nothing is left in any lane          *)
(*                                                                         *)
(* LaneDefects: "Fields" decoders share the memory for header fields,      *)
(* "Value" that for the value being decoded, "Items" the attributes so     *)
(* far, "Body" encoders share the memory for the encoded attributes,       *)
(* "Emitters" all their emitters, "Busy" what tells that an encoder has a  *)
(* message, "Failed" a failure is remembered for all, "Tx" decoders share  *)
(* the transaction id addresses are masked with.                           *)
(***************************************************************************)
EXTENDS StunDecoder, StunEncoder, Packets, Json, TLCExt, TLC

CONSTANTS Set1,          \* attribute set
          Count,         \* lanes
          Pool,          \* programs they run
          LaneDefects,
          Emit

HasL(x) == x \in LaneDefects

(* A program is a sequence of steps; each is what the model does, and the   *)
(* calls of the harness that do it.                                         *)
FeedB(b, eos) == [ t |-> "feed", b |-> b, eos |-> eos, o |-> << [ op |-> "feed", b |-> b, eos |-> eos ] >> ]
FinS == [ t |-> "fin", o |-> << [ op |-> "fin" ] >> ]
StartM(m) == [ t |-> "start", m |-> m, o |->
  << [ op |-> "new", cl |-> m.cl, me |-> m.me, tx |-> m.tx ] >>
    \o [ j \in 1..Len(m.at) |-> [ op |-> "add", c |-> m.at[j].c, v |-> m.at[j].v ] ]
    \o << [ op |-> "start" ] >> ]
PullN(n) == [ t |-> "pull", n |-> n, o |-> << [ op |-> "pull", n |-> n, eos |-> -1 ] >> ]

Decodes(w, cuts) ==
  LET c == << 0 >> \o cuts \o << Len(w) >> IN
  [ i \in 1..Len(cuts) + 1 |-> FeedB(SubSeq(w, c[i] + 1, c[i + 1]), -1) ] \o << FinS >>
Encodes(m, k) == << StartM(m), PullN(k), PullN(1000) >>

Programs ==
  << \* 1..: packets in parts, cut where a field, a value or padding is under way
     Decodes(E(MsgXor), << 3, 27 >>),
     Decodes(E(MsgText), << 21, 25 >>),
     Decodes(E(MsgSigned), << 9, 40 >>),
     Decodes(E(MsgError), << 26 >>),
     Decodes(Unknown2, << 20, 30 >>),
     \* 6..: rejected, broken in a value, by its FINGERPRINT
     << FeedB(Take(WrongCookie, 5), -1), FeedB(SubSeq(WrongCookie, 6, 20), -1) >> \o Decodes(E(MsgEmpty), << 7 >>),
     Decodes(BrokenPackets[5], << 24 >>),
     Decodes(BrokenPackets[9], << 30 >>),
     \* 9..: messages, emitted in parts
     Encodes(MsgXor, 22),
     Encodes(MsgText, 1),
     Encodes(MsgError, 7),
     \* 12..: a message over one in progress; one after another
     << StartM(MsgAddr), PullN(5), StartM(MsgEmpty), PullN(1000) >>,
     << StartM(MsgEmpty), PullN(20), StartM(MsgAddr), PullN(1000) >>,
     \* 14..: a decoder and an encoder of one lane
     << StartM(MsgXor), FeedB(Take(E(MsgAddr), 25), -1), PullN(1000), FeedB(Drop(E(MsgAddr), 25), -1), FinS >> >>

Fresh == [ d |-> FreshMsgDec, e |-> FreshImplEnc ]

\* A step of a lane: << its state, the result >>.
Does(x, s) ==
  CASE s.t = "feed" -> LET r == ImplFeed(Set1, 0, x.d, s.b, s.eos) IN
                       << [ x EXCEPT !.d = r.d ], << r.t, r.n, ImplIdle(r.d), ImplNeed(r.d) >> >>
    [] s.t = "fin" -> LET r == ImplFin(Set1, x.d) IN << [ x EXCEPT !.d = r.d ], << r.x, ImplNeed(r.d) >> >>
    [] s.t = "start" -> LET r == ImplEncStart(Set1, x.e, s.m) IN
                        << [ x EXCEPT !.e = r.e ], << r.t, ImplEncNeed(r.e), ImplEncIdle(r.e) >> >>
    [] s.t = "pull" -> LET r == ImplEncPull(x.e, s.n, FALSE) IN
                       << [ x EXCEPT !.e = r.e ], << r.t, r.b, ImplEncNeed(r.e) >> >>

\* What a program returns alone.
Alone(p) ==
  FoldLeft(LAMBDA y, s : LET r == Does(y.x, s) IN [ x |-> r[1], r |-> Append(y.r, r[2]) ],
           [ x |-> Fresh, r |-> << >> ], p)
AloneOf == [ i \in 1..Len(Programs) |-> Alone(Programs[i]) ]

VARIABLES prog,      \* the programs of the lanes
          at, x,     \* steps each has made, and its state
          common,    \* a lane's state last stored: what is shared is read from here
          sched,     \* the lanes in the order they moved
          res
vars == << prog, at, x, common, sched, res >>

Load(y) ==
  LET a == IF HasL("Fields") THEN [ y EXCEPT !.d.f = common.d.f ] ELSE y
      b == IF HasL("Value") THEN [ a EXCEPT !.d.s.c.a = common.d.s.c.a ] ELSE a
      c == IF HasL("Items") THEN [ b EXCEPT !.d.s.c.items = common.d.s.c.items ] ELSE b
      f == IF HasL("Failed") THEN [ c EXCEPT !.d.s.failed = common.d.s.failed ] ELSE c
      \* the memory has the last body; how much of its own it has emitted an encoder knows
      g == IF HasL("Body") /\ f.e[5].has /\ common.e[5].has
           THEN LET n == Len(f.e[5].b)  w == common.e[5].b IN
                [ f EXCEPT !.e[5].b = [ i \in 1..n |-> IF i <= Len(w) THEN w[i] ELSE 0 ] ]
           ELSE f
      h == IF HasL("Emitters") THEN [ g EXCEPT !.e = common.e ] ELSE g
      k == IF HasL("Busy") THEN [ h EXCEPT !.e[4].has = common.e[4].has ] ELSE h
  IN IF HasL("Tx") /\ k.d.hd # << >> /\ common.d.hd # << >>
     THEN [ k EXCEPT !.d.hd = SubSeq(@, 1, 8) \o SubSeq(common.d.hd, 9, 20) ] ELSE k

Init ==
  /\ prog \in [ 1..Count -> Pool ]
  /\ \A i \in 1..Count - 1 : prog[i] <= prog[i + 1]     \* lanes are alike
  /\ at = [ i \in 1..Count |-> 0 ] /\ x = [ i \in 1..Count |-> Fresh ] /\ common = Fresh
  /\ sched = << >> /\ res = "own"

\* The calls of the interleaving so far, as lanes and the order of their calls.
Over(a) == \A i \in 1..Count : a[i] = Len(Programs[prog[i]])
Calls(p) == FoldLeft(LAMBDA q, s : q \o s.o, << >>, p)
Order(q) ==
  FoldLeft(LAMBDA y, i : [ n |-> [ y.n EXCEPT ![i] = @ + 1 ],
                           q |-> y.q \o [ j \in 1..Len(Programs[prog[i]][y.n[i] + 1].o) |-> i - 1 ] ],
           [ n |-> [ i \in 1..Count |-> 0 ], q |-> << >> ], q).q

Move(i) ==
  /\ res = "own" /\ at[i] < Len(Programs[prog[i]])
  /\ LET s == Programs[prog[i]][at[i] + 1]
         r == Does(Load(x[i]), s)
     IN /\ x' = [ x EXCEPT ![i] = r[1] ]
        /\ common' = IF LaneDefects = {} THEN Fresh ELSE r[1]
        /\ res' = IF r[2] = AloneOf[prog[i]].r[at[i] + 1] THEN "own" ELSE s.t
  /\ at' = [ at EXCEPT ![i] = @ + 1 ]
  /\ sched' = Append(sched, i)
  /\ UNCHANGED prog
  /\ (Emit /\ Over(at')) =>
       PrintT(ToJson([ lanes |-> [ j \in 1..Count |-> Calls(Programs[prog[j]]) ], sched |-> Order(sched') ]))

Next == \E i \in 1..Count : Move(i)
Spec == Init /\ [][Next]_vars

Own == res = "own"
Done == Own /\ Over(at) => \A i \in 1..Count : x[i] = AloneOf[prog[i]].x
=============================================================================
