----------------------------- MODULE StunDecoder ---------------------------
(***************************************************************************)
(* The decoder as it is built: nested incremental decoders, each called    *)
(* with the buffer it is given and the end-of-stream indication, each      *)
(* keeping its own partial state.  This module has the structure of        *)
(* MessageDecoder, MessageHeaderDecoder, AttributesDecoder and             *)
(* LosslessAttributeDecoder and of the combinators they are made of        *)
(* (Peekable, Length, Collect).  MCDecoder checks that it refines the      *)
(* byte-stream decoder of StunCodec.                                       *)
(*                                                                         *)
(* Defects \subseteq {"D4", "D5", "D7", "D14"} puts back errors the code   *)
(* once had; the checks use {}.                                            *)
(***************************************************************************)
EXTENDS StunCodec

CONSTANT Defects
Has4(x) == x \in Defects

\* An end-of-stream indication: -1 unknown, otherwise the number of bytes after the buffer.
Reached(eos) == eos = 0

(* ------------------------------- attributes ----------------------------- *)
(* tl: type and length bytes; pk: they are complete (Peekable value_len has  *)
(* its item); kn: known type; nv, val: expected and read value bytes;        *)
(* np, pad: padding                                                          *)
FreshAttr == [ tl |-> << >>, pk |-> FALSE, kn |-> FALSE, nv |-> 0, val |-> << >>, np |-> 0, pad |-> << >> ]

AttrIdle(a) == a.pk /\ Len(a.val) = a.nv /\ Len(a.pad) = a.np

AttrType(a) == U16At(a.tl, 1)
AttrKindOf(set, a) == IF a.kn THEN KindIn(set, AttrType(a)) ELSE "raw"

\* [ok, n, a]: n bytes of b consumed.
AttrDecode(set, only, tx, a, b, eos) ==
  LET err(x) == [ ok |-> FALSE, n |-> 0, a |-> x ]
      k1 == IF a.pk THEN 0 ELSE Min2(4 - Len(a.tl), Len(b))
      tl == a.tl \o Take(b, k1)
      full == a.pk \/ Len(tl) = 4
      nv == IF full THEN U16At(tl, 3) ELSE 0
      a1 == IF a.pk THEN a
            ELSE IF ~full THEN [ a EXCEPT !.tl = tl ]
            ELSE [ tl |-> tl, pk |-> TRUE, kn |-> KnownType(set, only, U16At(tl, 1)),
                   nv |-> nv, val |-> << >>, np |-> PadLen(nv), pad |-> << >> ]
  IN
  IF ~full THEN IF Reached(eos) THEN err(a1) ELSE [ ok |-> TRUE, n |-> k1, a |-> a1 ]
  ELSE
  LET b1 == Drop(b, k1)
      need == a1.nv - Len(a1.val)
      k2 == Min2(need, Len(b1))
      a2 == [ a1 EXCEPT !.val = @ \o Take(b1, k2) ]
      vdone == Len(a2.val) = a2.nv
      bad == DecVal(AttrKindOf(set, a2), a2.val, 1, a2.nv, tx) = Bad
  IN
  \* Length: is the stream long enough? (it counts the buffer twice)
  IF need > 0 /\ eos # -1 /\ eos + Len(b1) < need - k2 THEN err(a1)
  ELSE IF ~vdone THEN [ ok |-> TRUE, n |-> k1 + k2, a |-> a2 ]
  ELSE IF bad THEN err(a2)
  ELSE
  LET b2 == Drop(b1, k2)
      k3 == Min2(a2.np - Len(a2.pad), Len(b2))
      a3 == [ a2 EXCEPT !.pad = @ \o Take(b2, k3) ]
  IN IF Len(a3.pad) < a3.np /\ Reached(eos) THEN err(a3)
     ELSE [ ok |-> TRUE, n |-> k1 + k2 + k3, a |-> a3 ]

AttrItem(set, tx, a) ==
  [ c |-> AttrType(a), k |-> a.kn, v |-> DecVal(AttrKindOf(set, a), a.val, 1, a.nv, tx),
    p |-> a.pad, pre |-> << >> ]

(* ------------------------------ Collect --------------------------------- *)
FreshColl == [ a |-> FreshAttr, items |-> << >>, eos |-> FALSE ]

CollStep(set, only, tx, b, eos, x) ==     \* x: done, and the result so far
  IF x.done THEN x
  ELSE IF x.n >= Len(b)
  THEN [ x EXCEPT !.done = TRUE, !.c.eos = @ \/ Reached(eos) ]
  ELSE LET r == AttrDecode(set, only, tx, x.c.a, Drop(b, x.n), eos) IN
       IF ~r.ok THEN [ x EXCEPT !.done = TRUE, !.ok = FALSE, !.c.a = r.a ]
       ELSE IF ~AttrIdle(r.a) THEN [ x EXCEPT !.done = TRUE, !.n = @ + r.n, !.c.a = r.a ]
       ELSE [ x EXCEPT !.n = @ + r.n, !.c.a = FreshAttr,
                       !.c.items = Append(@, AttrItem(set, tx, r.a)) ]

\* A step per byte suffices: every attribute but the last takes some.
CollDecode(set, only, tx, c, b, eos) ==
  IF c.eos THEN [ ok |-> TRUE, n |-> 0, c |-> c ]
  ELSE LET x == FoldLeft(LAMBDA y, j : CollStep(set, only, tx, b, eos, y),
                         [ done |-> FALSE, ok |-> TRUE, n |-> 0, c |-> c ], Upto(Len(b) + 1))
       IN [ ok |-> x.ok, n |-> x.n, c |-> x.c ]

(* -------------------------- AttributesDecoder --------------------------- *)
FreshAttrs == [ c |-> FreshColl, failed |-> FALSE, eos |-> FALSE ]
AttrsIdle(s) == IF s.failed THEN s.eos ELSE s.c.eos

AttrsDecode(set, only, tx, s, b, eos) ==
  LET skip(x) == [ n |-> Len(b), s |-> [ x EXCEPT !.failed = TRUE, !.eos = Reached(eos) ] ]
      r == CollDecode(set, only, tx, s.c, b, eos)
      s1 == [ s EXCEPT !.c = r.c ]
  IN IF s.failed THEN skip(s)
     ELSE IF ~r.ok THEN skip(s1)
     ELSE IF Reached(eos) /\ ~r.c.eos /\ ~Has4("D14") THEN skip(s1)
     ELSE [ n |-> r.n, s |-> s1 ]

\* [ok, items, s]
AttrsFinish(s) ==
  LET s1 == [ s EXCEPT !.eos = FALSE, !.failed = FALSE ] IN
  IF s.failed THEN [ ok |-> FALSE, items |-> << >>, s |-> s1 ]
  ELSE IF ~s.c.eos THEN [ ok |-> FALSE, items |-> << >>, s |-> s1 ]
  ELSE [ ok |-> TRUE, items |-> s.c.items, s |-> [ s1 EXCEPT !.c = [ @ EXCEPT !.eos = FALSE, !.items = << >> ] ] ]

(* ----------------------------- the decoder ------------------------------ *)
(* f: bytes of the four header fields, read in order; hd: the header when    *)
(* complete (Peekable); exp, rem: Length around the attributes               *)
FieldLen == << 2, 2, 4, 12 >>
FreshMsgDec == [ f |-> << << >>, << >>, << >>, << >> >>, hd |-> << >>,
                 exp |-> 0, rem |-> 0, s |-> FreshAttrs ]

\* Reads the fields in order from b; returns [f, n].
Fields(f, b) ==
  FoldLeft(LAMBDA x, i :
             LET k == IF i > 1 /\ Len(x.f[i-1]) < FieldLen[i-1] THEN 0
                      ELSE Min2(FieldLen[i] - Len(x.f[i]), Len(b) - x.n)
             IN [ f |-> [ x.f EXCEPT ![i] = @ \o SubSeq(b, x.n + 1, x.n + k) ], n |-> x.n + k ],
           [ f |-> f, n |-> 0 ], << 1, 2, 3, 4 >>)

Flat(f) == f[1] \o f[2] \o f[3] \o f[4]

\* [t, n, d]: t = "ok" or "err".
ImplFeed(set, only, d, b, eos) ==
  LET hdone == d.hd # << >>
      r == Fields(d.f, b)
      full == \A i \in 1..4 : Len(r.f[i]) = FieldLen[i]
      h == Flat(r.f)
      \* D5: the fields after a wrong type stay behind
      left == IF Has4("D5") /\ h[1] >= 64 THEN [ r.f EXCEPT ![1] = << >> ] ELSE FreshMsgDec.f
      d0 == IF hdone THEN d
            ELSE IF ~full THEN [ d EXCEPT !.f = r.f ]
            ELSE [ d EXCEPT !.f = FreshMsgDec.f, !.hd = h, !.exp = U16At(h, 3), !.rem = U16At(h, 3) ]
      n0 == IF hdone THEN 0 ELSE r.n
  IN
  IF ~hdone /\ ~full THEN [ t |-> IF Reached(eos) THEN "err" ELSE "ok", n |-> r.n, d |-> d0 ]
  ELSE IF ~hdone /\ ~HeaderOK(h) THEN [ t |-> "err", n |-> r.n, d |-> [ d EXCEPT !.f = left ] ]
  ELSE IF ~hdone /\ d.rem # d.exp   \* set_expected_bytes refuses
  THEN [ t |-> "err", n |-> r.n, d |-> [ d EXCEPT !.f = FreshMsgDec.f, !.hd = h ] ]
  ELSE IF AttrsIdle(d0.s) THEN [ t |-> "ok", n |-> n0, d |-> d0 ]
  ELSE
  LET b1 == Drop(b, n0)
      lim == Min2(Len(b1), d0.rem)
      req == d0.rem - lim
      tx == SubSeq(d0.hd, 9, 20)
      q == AttrsDecode(set, only, tx, d0.s, Take(b1, lim), req)
  IN IF eos # -1 /\ eos + Len(b1) < req THEN [ t |-> "err", n |-> n0, d |-> d0 ]
     ELSE [ t |-> "ok", n |-> n0 + q.n, d |-> [ d0 EXCEPT !.s = q.s, !.rem = @ - q.n ] ]

ImplIdle(d) == d.hd # << >> /\ AttrsIdle(d.s)

FieldsNeed(f) == HeaderLen - Len(Flat(f))
ImplNeed(d) ==
  IF Has4("D7") THEN (IF d.hd # << >> THEN 0 ELSE FieldsNeed(d.f)) + d.rem
  ELSE IF d.hd # << >> THEN d.rem ELSE FieldsNeed(d.f)

(* After-decode hooks: FINGERPRINT compares, MESSAGE-INTEGRITY remembers what *)
(* precedes it, and the harness's attributes refuse a value starting with     *)
(* 0xDD.  What they see is the message re-encoded from the attributes so far. *)
Before(set, m, i) == EncMsg(set, [ m EXCEPT !.at = SubSeq(m.at, 1, i - 1) ])
HookRefuses(set, m, i) ==
  LET a == m.at[i] IN
  /\ a.k
  /\ \/ AttrKind(set, a) = "fp" /\ a.v # FpOver(Before(set, m, i))
     \/ set = "probe" /\ a.c \in ProbeTypes /\ a.v # << >> /\ a.v[1] = 221
HookKeeps(set, m, i) ==
  LET a == m.at[i] IN
  IF a.k /\ AttrKind(set, a) = "mi" THEN [ a EXCEPT !.pre = MiInput(Before(set, m, i)) ] ELSE a

\* [x, d]: x as of Parse.
ImplFin(set, d) ==
  LET d1 == [ d EXCEPT !.hd = << >> ]
      ty == U16At(d.hd, 1)
      ids == [ t |-> "broken", cl |-> TypeClass(ty), me |-> TypeMethod(ty), tx |-> SubSeq(d.hd, 9, 20) ]
      q == AttrsFinish(d.s)
      d2 == [ d1 EXCEPT !.rem = d.exp, !.s = q.s ]
      broken(x) == [ x |-> ids, d |-> IF Has4("D4") THEN x ELSE [ x EXCEPT !.s = FreshAttrs, !.exp = 0, !.rem = 0 ] ]
      m == [ t |-> "msg", cl |-> ids.cl, me |-> ids.me, tx |-> ids.tx, at |-> q.items ]
  IN IF d.hd = << >> THEN [ x |-> [ t |-> "early" ], d |-> d ]
     ELSE IF d.rem # 0 THEN broken(d1)
     ELSE IF ~q.ok \/ \E i \in 1..Len(m.at) : HookRefuses(set, m, i) THEN broken(d2)
     ELSE [ x |-> [ m EXCEPT !.at = [ i \in 1..Len(m.at) |-> HookKeeps(set, m, i) ] ], d |-> d2 ]
=============================================================================
