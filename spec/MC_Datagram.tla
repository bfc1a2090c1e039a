---------------------------- MODULE MC_Datagram ----------------------------
(***************************************************************************)
(* Model checking of Receiver as it decodes datagrams: each is a header    *)
(* and up to Depth catalogue submessages, cut off after some number of     *)
(* bytes, and is decoded until its end.  What it gives is stated over the  *)
(* descriptions of what was sent; a datagram that follows must be decoded  *)
(* as by a fresh receiver, whatever came before it.                        *)
(***************************************************************************)
EXTENDS Catalogue, TLC, Json, IOUtils

CONSTANTS Depth,     \* submessages per datagram
          More,      \* the catalogue of the submessages after the first
          Missing    \* how many bytes may be missing at its end

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

VARIABLES sent,      \* descriptions of the present datagram, header first
          cut,       \* how many of its bytes are missing
          wanted,    \* what decoding it must give
          given,     \* what decoding it has given so far: items and errors
          turn,      \* "compose", "decode", "over"
          past       \* the descriptions and cut of the datagram before this one, or empty

mvars == <<rvars, sent, cut, wanted, given, turn, past>>

(* one of each description and two of entities *)
Few == {CHOOSE d \in Units : d.a = a : a \in {"src", "dst", "reply", "ip4", "ts", "tsinv", "skip", "bad"}}
       \cup {CHOOSE d \in Units : d.a = "ent" /\ d.kind = k /\ d.z = z : <<k, z>> \in {<<HEARTBEAT, TRUE>>, <<GAP, FALSE>>}}
       \cup {CHOOSE d \in Units : d.a = "skip" /\ d.z /\ d.kind = 0}
       \cup {CHOOSE d \in Units : d.a = "dst" /\ d.z}

Init ==
    /\ \E k \in {KindInvalid, KindUdp4} : ReceiverInit(k)
    /\ sent = <<>> /\ cut = 0 /\ wanted = <<>> /\ given = <<>> /\ turn = "compose" /\ past = <<>>

RECURSIVE Joined(_)
Joined(ds) == IF ds = <<>> THEN <<>> ELSE BytesOf(Head(ds)) \o Joined(Tail(ds))

ComposeHeader ==
    /\ turn = "compose" /\ sent = <<>>
    /\ \E d \in IF past = <<>> THEN Headers \cup BadHeaders ELSE {Hd(Rtps, <<2, 1>>, <<9, 9>>, P2)} : sent' = <<d>>
    /\ UNCHANGED <<rvars, cut, wanted, given, turn, past>>

ComposeUnit ==
    /\ turn = "compose" /\ sent # <<>> /\ Len(sent) <= (IF past = <<>> THEN Depth ELSE 1)
    /\ ~EndsMessage(sent[Len(sent)])
    /\ \E d \in IF past = <<>> THEN IF Len(sent) = 1 THEN Units ELSE More
                ELSE {Ent(HEARTBEAT, <<E1, E2, N(1), N(2), C(3)>>, TRUE, 0, 0, FALSE)} : sent' = Append(sent, d)
    /\ UNCHANGED <<rvars, cut, wanted, given, turn, past>>

-----------------------------------------------------------------------------
(* What a datagram must give, over descriptions *)

(* the number of bytes of the first i units *)
RECURSIVE Upto(_)
Upto(i) == IF i = 0 THEN 0 ELSE Upto(i - 1) + Len(BytesOf(sent[i]))

There(c) == Upto(Len(sent)) - c       \* the bytes that have arrived

(* unit i is there and can be decoded.  An open-ended unit is as long as   *)
(* what is there; only units of kinds that are skipped may lose bytes, and *)
(* a destination those it does not use                                     *)
Fine(i, c) ==
    LET d == sent[i]
        size == There(c) - Upto(i - 1)      \* at most this much of it
    IN  CASE i = 1 -> size >= 20 /\ Valid(d)
          [] i > 1 /\ ~EndsMessage(d) -> size >= Len(BytesOf(d)) /\ d.a # "bad"
          [] i > 1 /\ EndsMessage(d) /\ d.a = "skip" -> size >= 4
          [] i > 1 /\ EndsMessage(d) /\ d.a = "dst" -> size >= 4 + 12
          [] i > 1 /\ EndsMessage(d) /\ d.a \in {"ent", "src"} -> size >= Len(BytesOf(d))
          [] OTHER -> FALSE

(* the units of which something is there; a message of nothing is none *)
Arrived(c) == {i \in DOMAIN sent : There(c) > Upto(i - 1)}

FirstBad(c) ==
    LET B == {i \in Arrived(c) : ~Fine(i, c)}
    IN  IF B = {} THEN 0 ELSE MinOf(B)

Before(i, c) == IF i = 0 THEN Cardinality(Arrived(c)) ELSE i - 1

Wanted(c) ==
    LET bad == FirstBad(c)
        ds == SelectSeq(SubSeq(sent, 1, Before(bad, c)), LAMBDA d : d.a = "ent")
        is == [i \in DOMAIN ds |-> ItemOf(EntityType(ds[i].kind), ds[i].val, LE(ds[i].le) + ds[i].fl)]
    IN  IF bad = 0 THEN is ELSE Append(is, Error)

-----------------------------------------------------------------------------
Arrive ==
    /\ turn = "compose" /\ sent # <<>>
    /\ past = <<>> \/ Len(sent) = 2
    /\ LET b == Joined(sent)
       IN  \E c \in IF past = <<>> THEN {m \in Missing : m < Len(b)} ELSE {0} :
              /\ cut' = c
              /\ wanted' = Wanted(c)
              /\ Datagram(SubSeq(b, 1, Len(b) - c))
    /\ turn' = "decode"
    /\ UNCHANGED <<sent, given, past>>

(* decode_eof until it gives nothing *)
Step ==
    /\ turn = "decode"
    /\ DecodeEof
    /\ given' = IF out'.r = "none" THEN given ELSE Append(given, out')
    \* it gives nothing only at the end
    /\ turn' = IF buf = <<>> THEN "over" ELSE "decode"
    /\ UNCHANGED <<sent, cut, wanted, past>>

Another ==
    /\ turn = "over" /\ past = <<>>
    /\ past' = <<[ds |-> sent, cut |-> cut]>>
    /\ sent' = <<>> /\ cut' = 0 /\ wanted' = <<>> /\ given' = <<>> /\ turn' = "compose"
    /\ UNCHANGED rvars

Next == ComposeHeader \/ ComposeUnit \/ Arrive \/ Step \/ Another

Spec == Init /\ [][Next]_mvars

-----------------------------------------------------------------------------
(* The properties *)

(* C29: exactly the entities before the first bad part, then one error *)
GivesExactly == turn = "over" => given = wanted

(* never more than that on the way *)
GivesPrefix == turn = "decode" => Len(given) <= Len(wanted) /\ given = SubSeq(wanted, 1, Len(given))

(* the receiver is ready for the next datagram *)
Ready == turn = "over" => buf = <<>> /\ mode = "H"

(* C09, C29: what came before does not count *)
AsFresh == past # <<>> /\ turn = "over" =>
    rcv = Fresh(lk, sent[1].ver, sent[1].ven, sent[1].pfx)

(* each step shortens what is left: decoding ends *)
Shrinks == [][ turn = "decode" /\ buf # <<>> => Len(buf') < Len(buf) ]_mvars

(* either bytes are decoded, or the end is dealt with in one of two ways *)
EndOrProgress == turn = "decode" =>
    LET clean == ENABLED EndClean
        cutoff == ENABLED EndTruncated
    IN  ~(clean /\ cutoff) /\ (ENABLED Progress <=> ~(clean \/ cutoff))

-----------------------------------------------------------------------------
(* Schedules: all datagrams of at most one unit, and a share of the others *)

LkWord == IF lk = KindUdp4 THEN "v4" ELSE "inv"
Bytes(ds, c) == LET b == Joined(ds) IN SubSeq(b, 1, Len(b) - c)
Picked == LET b == Bytes(past[1].ds, past[1].cut)
          IN  Len(past[1].ds) <= 2 \/ (Len(b) + b[Len(b)] + 3 * past[1].cut) % 37 = 0
Emitted == Emit /\ past # <<>> /\ turn = "over" /\ Picked =>
    PrintT("SCHEDULE " \o ToJson([lk |-> LkWord, datagrams |-> <<Bytes(past[1].ds, past[1].cut), Bytes(sent, 0)>>]))
=============================================================================
