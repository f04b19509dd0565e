------------------------------ MODULE MCCopies -----------------------------
(***************************************************************************)
(* Messages and attributes as they are built: a message owns a vector of   *)
(* attributes, which owns their contents; a copy has a vector and contents *)
(* of its own.  The heap is explicit here, and every sequence of calls on  *)
(* a message, copies of it, and attributes taken out of it is explored, in *)
(* lockstep with the specification, in which they are values.              *)
(*                                                                         *)
(*   Views    what is read through each is what the specification says     *)
(*   Emitted  so is what an encoder emits, which prepares a copy           *)
(*   Owned    no two of them reach the same contents                       *)
(*                                                                         *)
(* CopyDefects: "Vector" copies share the vector, "Contents" they share    *)
(* the attributes' contents, "Known" a copy has only the known attributes, *)
(* "Padding" it does not have their padding, "Taken" an attribute taken    *)
(* out is not copied, "Borrowed" the encoder prepares the message itself.  *)
(***************************************************************************)
EXTENDS StunMessage, Json, TLCExt

CONSTANTS CSet,         \* attribute set
          MaxAttrs,     \* attributes of a message
          CopyDefects,
          Emit

CTx == << 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 >>
CAddr == Attr(\h0020, << 1, 80, 127, 0, 0, 1 >>)
CText == Attr(\h8022, << 115 >>)
CUser == Attr(\h0006, << 117, 49, 50 >>)
CUnknown == [ Attr(\h7F01, << 1, 2, 3, 4, 5 >>) EXCEPT !.k = FALSE, !.p = << 170, 0, 204 >> ]
CPadded == [ CUser EXCEPT !.p = << 9 >> ]
Packets ==
  << [ cl |-> 0, me |-> 1, tx |-> CTx, at |-> << CAddr, CUnknown >> ],
     [ cl |-> 2, me |-> 3, tx |-> CTx, at |-> << CPadded >> ] >>
Addable == << CAddr, CText >>
Empty == [ cl |-> 1, me |-> 9, tx |-> CTx, at |-> << >> ]

(* The heap: cells of attribute contents, and of vectors of the addresses   *)
(* of those.  A message is its ids and the address of its vector.           *)
VARIABLES heap,      \* sequence of cells
          now,       \* the current message
          aside,     \* two messages put aside
          taken,     \* one attribute taken out: an address, 0 if there is none
          spec,      \* [ now, aside, taken ] of the specification
          res        \* "emitted" if the last call encoded something else
vars == << heap, now, aside, taken, spec, res >>

Nothing == [ cl |-> -1, me |-> 0, tx |-> << >>, ref |-> 0 ]
NoMessage == [ cl |-> -1, me |-> 0, tx |-> << >>, at |-> << >> ]
NoAttribute == Attr(-1, << >>)

\* Allocates cells: << heap, addresses >>.
Alloc(h, cells) == << h \o cells, [ i \in 1..Len(cells) |-> Len(h) + i ] >>
Place(h, m) ==
  LET c == Alloc(h, m.at)
      v == Alloc(c[1], << c[2] >>)
  IN << v[1], [ cl |-> m.cl, me |-> m.me, tx |-> m.tx, ref |-> v[2][1] ] >>
Contents(h, m) == [ i \in 1..Len(h[m.ref]) |-> h[h[m.ref][i]] ]
Read(h, m) == IF m.cl = -1 THEN NoMessage ELSE [ cl |-> m.cl, me |-> m.me, tx |-> m.tx, at |-> Contents(h, m) ]

\* Message::clone
Copy(h, m) ==
  LET at == Contents(h, m)
      some == IF "Known" \in CopyDefects THEN Known(at) ELSE at
      bare == IF "Padding" \in CopyDefects THEN [ i \in 1..Len(some) |-> [ some[i] EXCEPT !.p = << >> ] ] ELSE some
      v == Alloc(h, << h[m.ref] >>)
  IN CASE "Vector" \in CopyDefects -> << h, m >>
       [] "Contents" \in CopyDefects -> << v[1], [ m EXCEPT !.ref = v[2][1] ] >>
       [] OTHER -> Place(h, [ cl |-> m.cl, me |-> m.me, tx |-> m.tx, at |-> bare ])

\* Before it is encoded a masked address is masked; where it is, if that is not a copy.
Masked(a) == IF a.k /\ a.c = \h0020 THEN [ a EXCEPT !.v = XorAddr(@, CTx) ] ELSE a
Mask(h, m) == [ i \in 1..Len(h) |-> IF i \in { h[m.ref][j] : j \in 1..Len(h[m.ref]) } THEN Masked(h[i]) ELSE h[i] ]

(* Cells nothing reaches are dropped, and the others named in the order they *)
(* are reached, so that equal states are equal.                              *)
Reached(h, m) == IF m.cl = -1 THEN << >> ELSE << m.ref >> \o h[m.ref]
Once(q) == FoldLeft(LAMBDA k, a : IF \E i \in 1..Len(k) : k[i] = a THEN k ELSE Append(k, a), << >>, q)
Collect(h, ms, t) ==
  LET roots == { ms[i].ref : i \in 1..Len(ms) }
      live == Once(Reached(h, ms[1]) \o Reached(h, ms[2]) \o Reached(h, ms[3]) \o (IF t = 0 THEN << >> ELSE << t >>))
      name(a) == CHOOSE i \in 1..Len(live) : live[i] = a
      moved(m) == IF m.cl = -1 THEN m ELSE [ m EXCEPT !.ref = name(@) ]
  IN [ heap |-> [ i \in 1..Len(live) |->
                    IF live[i] \in roots THEN [ j \in 1..Len(h[live[i]]) |-> name(h[live[i]][j]) ] ELSE h[live[i]] ],
       ms |-> [ i \in 1..Len(ms) |-> moved(ms[i]) ],
       t |-> IF t = 0 THEN 0 ELSE name(t) ]
Becomes(h, m0, m1, m2, t) ==
  LET c == Collect(h, << m0, m1, m2 >>, t)
  IN heap' = c.heap /\ now' = c.ms[1] /\ aside' = << c.ms[2], c.ms[3] >> /\ taken' = c.t

Id == << TLCFP(vars) >>
IdNext == << TLCFP(<< heap', now', aside', taken', spec', res' >>) >>
\* Every message is looked at after every call.
Looks ==
  << [ op |-> "look" ] >>
  \o (IF aside'[1].cl = -1 THEN << >> ELSE << [ op |-> "msw", at |-> 0 ], [ op |-> "look" ], [ op |-> "msw", at |-> 0 ] >>)
  \o (IF aside'[2].cl = -1 THEN << >> ELSE << [ op |-> "msw", at |-> 1 ], [ op |-> "look" ], [ op |-> "msw", at |-> 1 ] >>)
Says(s, calls, t) == Emit => PrintT(ToJson([ s |-> s, o |-> calls \o Looks, t |-> t ]))

Init ==
  \E p \in 0..Len(Packets) :
     LET m == IF p = 0 THEN Empty ELSE Packets[p]
         h == Place(<< >>, m)
         c == Collect(h[1], << h[2], Nothing, Nothing >>, 0)
     IN /\ heap = c.heap /\ now = c.ms[1] /\ aside = << Nothing, Nothing >> /\ taken = 0
        /\ spec = [ now |-> m, aside |-> << NoMessage, NoMessage >>, taken |-> NoAttribute ]
        /\ res = "ok"
        /\ Emit => PrintT(ToJson([ s |-> << >>, t |-> Id, o |->
             IF p = 0 THEN << [ op |-> "new", cl |-> m.cl, me |-> m.me, tx |-> m.tx ], [ op |-> "look" ] >>
             ELSE << [ op |-> "dec", b |-> EncMsg(CSet, m) ], [ op |-> "look" ] >> ]))

More == res = "ok"

PutAside(i) ==
  /\ More
  /\ LET c == Copy(heap, now) IN
     Becomes(c[1], now, IF i = 1 THEN c[2] ELSE aside[1], IF i = 2 THEN c[2] ELSE aside[2], taken)
  /\ spec' = [ spec EXCEPT !.aside[i] = spec.now ]
  /\ UNCHANGED res
  /\ Says(Id, << [ op |-> "mcp", to |-> i - 1 ] >>, IdNext)

Swap(i) ==
  /\ More /\ aside[i].cl # -1
  /\ Becomes(heap, aside[i], IF i = 1 THEN now ELSE aside[1], IF i = 2 THEN now ELSE aside[2], taken)
  /\ spec' = [ spec EXCEPT !.now = spec.aside[i], !.aside[i] = spec.now ]
  /\ UNCHANGED res
  /\ Says(Id, << [ op |-> "msw", at |-> i - 1 ] >>, IdNext)

Push(h, a) == [ h EXCEPT ![now.ref] = Append(@, a) ]
Add(a, calls) ==
  /\ Len(spec.now.at) < MaxAttrs
  /\ LET c == Alloc(heap, << a >>) IN Becomes(Push(c[1], c[2][1]), now, aside[1], aside[2], taken)
  /\ spec' = [ spec EXCEPT !.now.at = Append(@, [ a EXCEPT !.p = << >> ]) ]
  /\ UNCHANGED res
  /\ Says(Id, calls, IdNext)
AddNew(j) == More /\ Add(Addable[j], << [ op |-> "add", c |-> Addable[j].c, v |-> Addable[j].v ] >>)

\* The i-th known attribute, copied out of the message; its padding stays there.
KnownAt == SelectSeq([ i \in 1..Len(heap[now.ref]) |-> heap[now.ref][i] ], LAMBDA x : heap[x].k)
TakeOut(i) ==
  /\ More /\ i <= Len(KnownAt) /\ spec.taken # [ Known(spec.now.at)[i] EXCEPT !.p = << >> ]
  /\ LET c == Alloc(heap, << [ heap[KnownAt[i]] EXCEPT !.p = << >> ] >>) IN
     IF "Taken" \in CopyDefects THEN Becomes(heap, now, aside[1], aside[2], KnownAt[i])
     ELSE Becomes(c[1], now, aside[1], aside[2], c[2][1])
  /\ spec' = [ spec EXCEPT !.taken = [ Known(spec.now.at)[i] EXCEPT !.p = << >> ] ]
  /\ UNCHANGED res
  /\ Says(Id, << [ op |-> "vtake", i |-> i - 1, to |-> 0 ], [ op |-> "vcp", at |-> 0, to |-> 1 ], [ op |-> "vcmp", at |-> 0, with |-> 1 ] >>, IdNext)
AddTaken ==
  /\ More /\ taken # 0
  /\ Add([ heap[taken] EXCEPT !.p = << >> ], << [ op |-> "vadd", at |-> 0 ] >>)

\* An encoder takes a copy of the message, and prepares that.
Encode ==
  /\ More
  /\ LET c == IF "Borrowed" \in CopyDefects THEN << heap, now >> ELSE Copy(heap, now)
         h == Mask(c[1], c[2])
     IN /\ res' = IF Read(h, c[2]) = [ spec.now EXCEPT !.at = [ i \in 1..Len(@) |-> Masked(@[i]) ] ] THEN "ok" ELSE "emitted"
        /\ Becomes(h, now, aside[1], aside[2], taken)
  /\ spec' = spec
  /\ Says(Id, << [ op |-> "enc" ] >>, IdNext)

Next == \/ \E i \in 1..2 : PutAside(i) \/ Swap(i)
        \/ \E j \in 1..Len(Addable) : AddNew(j)
        \/ \E i \in 1..MaxAttrs : TakeOut(i)
        \/ AddTaken \/ Encode
Spec == Init /\ [][Next]_vars

Views ==
  /\ Read(heap, now) = spec.now
  /\ \A i \in 1..2 : Read(heap, aside[i]) = spec.aside[i]
  /\ (IF taken = 0 THEN NoAttribute ELSE heap[taken]) = spec.taken
Emitted == res = "ok"
Reach(m) == IF m.cl = -1 THEN << >> ELSE heap[m.ref]
Owned ==
  LET ms == << now, aside[1], aside[2] >> IN
  /\ \A i, j \in 1..3 : i # j /\ ms[i].cl # -1 => ms[i].ref # ms[j].ref
  /\ LET all == Reach(now) \o Reach(aside[1]) \o Reach(aside[2]) \o (IF taken = 0 THEN << >> ELSE << taken >>)
     IN Cardinality({ all[i] : i \in 1..Len(all) }) = Len(all)
=============================================================================
