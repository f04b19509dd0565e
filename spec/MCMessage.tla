----------------------------- MODULE MCMessage -----------------------------
(***************************************************************************)
(* Every way to make a message of up to MaxAttrs attributes with the API:  *)
(* adding attributes, MESSAGE-INTEGRITYs under several credentials and     *)
(* FINGERPRINTs in any order, encoding, decoding what was encoded, making  *)
(* a new message of the known attributes; starting with a new message or   *)
(* a received packet; and altering what was encoded.                       *)
(*                                                                         *)
(*   RoundTrip    decoding the encoding gives the message back (C03, C04,  *)
(*                C15), if its FINGERPRINTs are right                      *)
(*   Lossless     encoding what was decoded gives the bytes back (C04)     *)
(*   Verdicts     a MESSAGE-INTEGRITY is accepted under the credentials it *)
(*                was made with, before and after transfer, and under      *)
(*                no other (C12, C17)                                      *)
(*   Protected    altering a byte of what is signed, or of the digest,     *)
(*                makes verification fail or the packet broken (C17); with *)
(*                a FINGERPRINT at the end every altered byte shows (C11)  *)
(*   Masked       no encoding carries a masked address in the clear (C10)  *)
(***************************************************************************)
EXTENDS Packets, Json, TLCExt, TLC

CONSTANTS MSet,     \* "all", "rfc5389", "probe", ...
          MaxAttrs,      \* attributes per message
          Alter,    \* which bytes are altered: each index divisible by this
          Emit      \* print the transitions as calls of the harness

V6 == << 2, 443, 32, 1, 13, 184, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1 >>
Values ==
  CASE MSet = "all" -> << Attr(\h0001, V4), Attr(\h0012, V6), Attr(\h0020, V4),
                          Attr(\h0006, << 117 >>), Attr(\h8022, << 226, 130, 172 >>) >>
    [] MSet = "rfc5389" -> << Attr(\h0020, V6), Attr(\h0009, << 420, 120 >>), Attr(\h000A, << \h7FFF >>),
                              Attr(\h0020, V4) >>
    [] MSet = "turn" -> << Attr(\h0012, V4), Attr(\h000D, << 0, 0, 2, 88 >>), Attr(\h0013, << 1, 2, 3, 4, 5 >>),
                           Attr(\h0018, << 1 >>), Attr(\h001A, << >>), Attr(\h000C, << \h4001 >>) >>
    [] MSet = "probe" -> << Attr(\h7F00, << 1 >>), Attr(\hFF00, << >>), Attr(\h7F00, << 238 >>),
                            Attr(\hFF00, << 221, 1 >>), Attr(\h0020, V4) >>

\* Received: padding that is not zero, unknown attributes, both in one.
Received ==
  << Unknown2,
     Packet(2, 1, Tx1, Tlv(\h0006, << 117 >>, << 1, 2, 3 >>) \o Tlv(\h7F31, << 9 >>, << 0, 0, 1 >>)),
     Packet(0, 1, Tx0, Tlv(\h0008, [ i \in 1..20 |-> i ], << >>) \o Tlv(\h7F00, << 5 >>, << 4, 4, 4 >>)) >>

\* Credentials: a password, or a user name, realm and password.
Creds == << << << 112 >> >>, << << 117 >>, << 114 >>, << 112 >> >> >>
CredKey(i) == LET c == Creds[i] IN IF Len(c) = 1 THEN c[1] ELSE LongTermKey(c[1], c[2], c[3])
CanSign == KnownType(MSet, 0, \h0008)
CanPrint == KnownType(MSet, 0, \h8028)

VARIABLES m,     \* the message
          by,    \* for each attribute the credentials it was made with, 0 none, -1 open
          out,   \* its encoding if it has been encoded, or << >>
          src,   \* the bytes it was decoded from, or << >>
          res
vars == << m, by, out, src, res >>

NewCall(x) == [ op |-> "new", cl |-> x.cl, me |-> x.me, tx |-> x.tx ]
\* A transition: from state s the calls o lead to state t (<< >> as s: the initial state).
Says(s, calls, t) ==
  Emit => PrintT(ToJson([ s |-> s, o |-> calls, t |-> t ]))
Id == << TLCFP(vars) >>
IdNext == << TLCFP(<< m', by', out', src', res' >>) >>

Init ==
  /\ out = << >> /\ res = "ok"
  /\ \/ /\ \E tx \in {Tx0, Tx1} : m = NewMsg(IF tx = Tx0 THEN 0 ELSE 3, IF tx = Tx0 THEN 1 ELSE 2730, tx)
        /\ by = << >> /\ src = << >>
        /\ Says(<< >>, << NewCall(m) >>, Id)
     \/ /\ \E i \in 1..Len(Received) :
             /\ Parse(MSet, 0, Received[i]).t = "msg"
             /\ m = Parse(MSet, 0, Received[i]) /\ src = Received[i]
             /\ by = [ j \in 1..Len(m.at) |-> 0 ]
        /\ Says(<< >>, << [ op |-> "dec", b |-> src ] >>, Id)

Room == res = "ok" /\ Len(m.at) < MaxAttrs

Step(calls) == Says(Id, calls, IdNext)

Add(i) ==
  /\ Room
  /\ m' = AddAttr(m, Values[i]) /\ by' = Append(by, 0)
  /\ out' = << >> /\ src' = << >> /\ UNCHANGED res
  /\ Step(<< [ op |-> "add", c |-> Values[i].c, v |-> Values[i].v ] >>)

Sign(i) ==
  /\ Room /\ CanSign /\ CanStart(MSet, m)
  /\ m' = AddAttr(m, MiAttr(MSet, m, CredKey(i))) /\ by' = Append(by, i)
  /\ out' = << >> /\ src' = << >> /\ UNCHANGED res
  /\ Step(<< [ op |-> "enc" ],
             IF Len(Creds[i]) = 1 THEN [ op |-> "addmi", pw |-> Creds[i][1] ]
             ELSE [ op |-> "addmil", u |-> Creds[i][1], re |-> Creds[i][2], pw |-> Creds[i][3] ] >>)

Print1 ==
  /\ Room /\ CanPrint /\ CanStart(MSet, m)
  /\ m' = AddAttr(m, FpAttr(MSet, m)) /\ by' = Append(by, 0)
  /\ out' = << >> /\ src' = << >> /\ UNCHANGED res
  /\ Step(<< [ op |-> "enc" ], [ op |-> "addfp" ] >>)

Encode ==
  /\ res = "ok" /\ out = << >>
  /\ out' = IF CanStart(MSet, m) THEN EncMsg(MSet, m) ELSE << >>
  /\ res' = IF CanStart(MSet, m) THEN "ok" ELSE "refused"
  /\ UNCHANGED << m, by, src >>
  /\ Step(<< [ op |-> "enc" ], [ op |-> "look" ] >>)

Decode ==
  /\ res = "ok" /\ out # << >>
  /\ LET x == Parse(MSet, 0, out) IN
     IF x.t = "msg" THEN m' = x /\ src' = out /\ UNCHANGED << by, res >>
     ELSE res' = "broken" /\ UNCHANGED << m, by, src >>
  /\ out' = << >>
  /\ Step(<< [ op |-> "dec", src |-> "out" ], [ op |-> "look" ] >>)

Rebuild ==
  /\ res = "ok" /\ src # << >>
  /\ m' = [ m EXCEPT !.at = [ i \in 1..Len(Known(@)) |-> [ Known(@)[i] EXCEPT !.p = << >> ] ] ]
  /\ by' = LET ix == SelectSeq([ i \in 1..Len(m.at) |-> i ], LAMBDA i : m.at[i].k)
           \* A signature made over what is lost (unknown attributes, padding) may fail.
           IN [ i \in 1..Len(ix) |-> IF EncMsg(MSet, m') = src THEN by[ix[i]] ELSE -1 ]
  /\ src' = << >> /\ out' = << >> /\ UNCHANGED res
  /\ Step(<< [ op |-> "rebuild" ], [ op |-> "look" ] >>)

Check(i) ==
  /\ res = "ok" /\ CanSign
  /\ \E j \in 1..Len(m.at) : m.at[j].k /\ m.at[j].c = \h0008
  /\ UNCHANGED vars
  /\ Step(<< IF Len(Creds[i]) = 1 THEN [ op |-> "mic", pw |-> Creds[i][1] ]
             ELSE [ op |-> "micl", u |-> Creds[i][1], re |-> Creds[i][2], pw |-> Creds[i][3] ] >>)

Flip(s, i) == [ s EXCEPT ![i] = @ ^^ (2 ^ (i % 8)) ]
Tamper(i) ==
  /\ res = "ok" /\ out # << >> /\ i \in 1..Len(out) /\ i % Alter = 0
  /\ res' = "altered" /\ src' = Flip(out, i) /\ UNCHANGED << m, by, out >>
  /\ Step(<< [ op |-> "fd" ], [ op |-> "dec", src |-> "out", flips |-> << << i - 1, 2 ^ (i % 8) >> >> ],
             [ op |-> "mic", pw |-> Creds[1][1] ],
             [ op |-> "micl", u |-> Creds[2][1], re |-> Creds[2][2], pw |-> Creds[2][3] ] >>)

Next ==
  \/ \E i \in 1..Len(Values) : Add(i)
  \/ \E i \in 1..Len(Creds) : Sign(i) \/ Check(i)
  \/ Print1 \/ Encode \/ Decode \/ Rebuild
  \/ \E i \in 1..200 : Tamper(i)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
IsFp(a) == a.k /\ KindIn(MSet, a.c) = "fp"
IsMi(a) == a.k /\ KindIn(MSet, a.c) = "mi"
Upto1(x, i) == [ x EXCEPT !.at = SubSeq(@, 1, i) ]
FpsRight == \A i \in 1..Len(m.at) : IsFp(m.at[i]) => m.at[i].v = FpOver(EncMsg(MSet, Upto1(m, i - 1)))
\* Attributes of the harness that refuse to be decoded.
HookStops == MSet = "probe" /\ \E i \in 1..Len(m.at) : m.at[i].c \in ProbeTypes /\ m.at[i].v # << >> /\ m.at[i].v[1] = 221

Plain(x) == [ x EXCEPT !.at = [ i \in 1..Len(x.at) |-> << x.at[i].c, x.at[i].k, x.at[i].v >> ] ]
RoundTrip ==
  res = "ok" /\ out # << >> =>
    LET x == Parse(MSet, 0, out) IN
    IF FpsRight /\ ~HookStops
    THEN x.t = "msg" /\ Plain(x) = Plain(m) /\ EncMsg(MSet, x) = out
    ELSE x = [ t |-> "broken", cl |-> m.cl, me |-> m.me, tx |-> m.tx ]
Lossless == res = "ok" /\ src # << >> => EncMsg(MSet, m) = src

Verdicts ==
  res = "ok" => \A i \in 1..Len(m.at) : IsMi(m.at[i]) /\ by[i] # -1 =>
    \A k \in 1..Len(Creds) : CheckMi(m.at[i], CredKey(k)) = (by[i] = k)

\* The first MESSAGE-INTEGRITY of what was altered.
Protected ==
  res = "altered" /\ PktLen(src) = Len(src) =>
    LET x == Parse(MSet, 0, src)
        changed == CHOOSE i \in 1..Len(src) : src[i] # out[i]
        mis == SelectSeq([ i \in 1..Len(m.at) |-> i ], LAMBDA i : IsMi(m.at[i]))
        ends == Len(m.at) > 0 /\ IsFp(m.at[Len(m.at)])
    IN /\ ends => x.t # "msg" \/ ~IsFp(x.at[Len(x.at)])
       /\ mis # << >> /\ by[mis[1]] > 0 =>
            LET e == Len(EncMsg(MSet, Upto1(m, mis[1]))) IN
            (changed <= e) =>
              \/ x.t # "msg"
              \/ LET ys == SelectSeq(x.at, LAMBDA a : IsMi(a)) IN
                 \A k \in 1..Len(Creds) : ys = << >> \/ ~CheckMi(ys[1], CredKey(k))

\* Where masked addresses stand in the encoding, they are masked.
Masked ==
  out # << >> /\ res = "ok" =>
    \A i \in 1..Len(m.at) : m.at[i].k /\ KindIn(MSet, m.at[i].c) = "xaddr" =>
      LET s == EncMsg(MSet, Upto1(m, i))
          v == m.at[i].v
          w == SubSeq(s, Len(s) - (Len(v) - 2) + 1, Len(s))
      IN \A j \in 1..Len(w) : w[j] = v[j + 2] ^^ (IF j <= 4 THEN MagicCookie[j] ELSE m.tx[j - 4])
=============================================================================
