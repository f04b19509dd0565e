----------------------------- MODULE TraceLanes ----------------------------
(***************************************************************************)
(* Validation of traces of several sessions at work at the same time (C24).*)
(*                                                                         *)
(* Each lane of a session is a decoder, an encoder, a message and so on of *)
(* its own.  The specification of all of them is the interleaving of the   *)
(* specifications of each: a step is a step of one lane, which leaves the  *)
(* others where they are.  What a lane does alone was recorded from the    *)
(* real code in a process of its own (field alone); TraceStun decides      *)
(* whether that is right, and this module whether the lanes at work        *)
(* together - call by call on one thread, on a thread each in turns, going *)
(* from thread to thread, in parallel, or so in a process of their own -   *)
(* are an interleaving of that.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Prop, File, KnownIds

Sessions == ndJsonDeserialize(File)

VARIABLES si, ei,
          at,        \* calls made on each lane
          viol
vars == << si, ei, at, viol >>

If(b, x) == IF b THEN {x} ELSE {}

\* (Values of different types cannot be compared, their texts can.)
Alike(x, y) == x.t = y.t /\ ToJson(x) = ToJson(y)

Judge(S, p, e) ==
  IF e.r.t = "panic" THEN {"panic, crash or hang"}
  ELSE LET i == e.l + 1 IN
       IF p[i] >= Len(S.alone[i]) THEN {"calls it does not make alone"}
       ELSE If(~Alike(e.r, S.alone[i][p[i] + 1]), "what it returns alone")
            \* What may go from thread to thread.
            \cup If(e.op = "auto" /\ e.r.t = "ok" /\ \E j \in 1..Len(e.r.rows) : e.r.rows[j][2] # 1 \/ e.r.rows[j][3] # 1,
                    "threads")

Init == /\ si \in 1..Len(Sessions) /\ ei = 1 /\ viol = {}
        /\ at = [ i \in 1..(IF "alone" \in DOMAIN Sessions[si] THEN Len(Sessions[si].alone) ELSE 0) |-> 0 ]

Next ==
  /\ viol = {}
  /\ LET S == Sessions[si] IN
     \/ /\ ei <= Len(S.ev)
        /\ LET e == S.ev[ei]
               j == Judge(S, at, e)
               known == j # {} /\ S.id \in KnownIds
           IN /\ j # {} => PrintT(<< IF known THEN "KNOWN" ELSE "VIOL", S.id, ei, e.op, j >>)
              /\ viol' = j
              /\ at' = IF e.r.t = "panic" THEN at ELSE [ at EXCEPT ![e.l + 1] = @ + 1 ]
              /\ ei' = ei + 1
     \* Every lane makes all the calls it makes alone.
     \/ /\ ei = Len(S.ev) + 1
        /\ \E i \in DOMAIN at : at[i] < Len(S.alone[i])
        /\ PrintT(<< "VIOL", S.id, ei, "end", {"calls it makes alone"} >>)
        /\ viol' = {"calls it makes alone"}
        /\ UNCHANGED << at, ei >>
  /\ UNCHANGED si

Spec == Init /\ [][Next]_vars

Holds == viol = {} \/ Sessions[si].id \in KnownIds
Position == << si, ei, viol # {} >>
Where == [ session |-> Sessions[si].id, event |-> ei, objections |-> viol ]
=============================================================================
