----------------------------- MODULE StunEncoder ---------------------------
(***************************************************************************)
(* The encoder as it is built: MessageEncoder is five byte emitters, for   *)
(* the message type, length, magic cookie, transaction id and the          *)
(* attributes (encoded into memory when the message is started), each of   *)
(* which is started on its own and may be partly emitted.  MCEncoder       *)
(* checks that it refines the encoder of StunCodec, whose state is the     *)
(* bytes still to be emitted.                                              *)
(*                                                                         *)
(* EncDefects \subseteq {"D8", "D9"} puts back errors the code once had    *)
(* (a message started over one in progress; the fields of a refused        *)
(* message left behind), and others of the same kind:                      *)
(*   "Length"   the length field is started before the body is known       *)
(* The checks use {}.                                                      *)
(***************************************************************************)
EXTENDS StunCodec

CONSTANT EncDefects
HasE(x) == x \in EncDefects

\* An emitter: has it an item, and the bytes of it not yet emitted.
None == [ has |-> FALSE, b |-> << >> ]
Some(b) == [ has |-> TRUE, b |-> b ]

\* 1 type, 2 length, 3 cookie, 4 transaction id, 5 attributes
FreshImplEnc == << None, None, None, None, None >>

ImplEncIdle(e) == ~e[4].has /\ ~e[5].has
ImplEncNeed(e) == Len(e[1].b) + Len(e[2].b) + Len(e[3].b) + Len(e[4].b) + Len(e[5].b)

\* Starting one emitter: [ok, e].
StartCell(r, i, b) ==
  IF ~r.ok \/ r.e[i].has THEN [ r EXCEPT !.ok = FALSE ]
  ELSE [ r EXCEPT !.e[i] = Some(b) ]

ImplBody(set, m) ==
  [ ok |-> \A i \in 1..Len(m.at) : EncLen(AttrKind(set, m.at[i]), m.at[i].v) <= 65535,
    b |-> EncAttrs(set, m.at, m.tx) ]

\* [t, e]: t = "ok" or "err".
ImplEncStart(set, e, m) ==
  IF ~HasE("D8") /\ ~ImplEncIdle(e) THEN [ t |-> "err", e |-> e ]
  ELSE IF \E i \in 1..Len(m.at) : Refuses(set, m.at[i]) THEN [ t |-> "err", e |-> e ]
  ELSE
  LET body == ImplBody(set, m)
      r0 == [ ok |-> TRUE, e |-> e ]
      r1 == StartCell(r0, 1, BE16(TypeBits(m.cl, m.me)))
      r3 == StartCell(r1, 3, MagicCookie)
      r4 == StartCell(r3, 4, m.tx)
      r5 == IF ~r4.ok \/ ~body.ok THEN [ r4 EXCEPT !.ok = FALSE ] ELSE StartCell(r4, 5, body.b)
      fits == Len(body.b) <= MaxBody
      r2 == IF ~r5.ok \/ ~fits THEN [ r5 EXCEPT !.ok = FALSE ]
            ELSE StartCell(r5, 2, BE16(IF HasE("Length") THEN Len(e[5].b) ELSE Len(body.b)))
  IN IF r2.ok THEN [ t |-> "ok", e |-> r2.e ]
     ELSE [ t |-> "err", e |-> IF HasE("D9") THEN r2.e ELSE FreshImplEnc ]

(* A buffer of n bytes; last: the stream ends with it.  Emitters are asked    *)
(* in order as long as they have something; one that does not finish ends     *)
(* the call.  [t, b, e].                                                      *)
ImplEncPull(e, n, last) ==
  LET step(x, i) ==
        IF x.done \/ ~x.e[i].has THEN x
        ELSE LET k == Min2(n - Len(x.b), Len(x.e[i].b))
                 rest == Drop(x.e[i].b, k)
                 y == [ x EXCEPT !.b = @ \o Take(x.e[i].b, k) ]
             IN IF rest = << >> THEN [ y EXCEPT !.e[i] = None ]
                ELSE [ y EXCEPT !.e[i] = Some(rest), !.done = TRUE, !.t = IF last THEN "err" ELSE "ok" ]
      z == FoldLeft(step, [ t |-> "ok", b |-> << >>, e |-> e, done |-> FALSE ], << 1, 2, 3, 4, 5 >>)
  IN [ t |-> z.t, b |-> z.b, e |-> z.e ]
=============================================================================
