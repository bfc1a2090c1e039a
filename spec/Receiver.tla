------------------------------ MODULE Receiver ------------------------------
(***************************************************************************)
(* The message receiver: bytes go into a buffer, and decoding makes steps. *)
(* A step is one of the named actions below, one for each case the         *)
(* protocol distinguishes; exactly one of them is enabled in every state   *)
(* (checked in MC_Receiver: Deterministic).  A call of decode makes steps  *)
(* until one of them gives an item or an error, or more bytes are needed   *)
(* (Await).  At the end of a datagram no more bytes come for its message,  *)
(* and the actions EndClean and EndTruncated take the place of Await.      *)
(*                                                                         *)
(*   buf    bytes not consumed yet                                         *)
(*   mode   "H": a message header is expected next, "S": a submessage      *)
(*   rcv    the receiver context                                           *)
(*   known  FALSE between an error and the next header: the context is     *)
(*          not specified then                                             *)
(*   out    what the last step gave                                        *)
(*   lk     the locator kind the receiver was made for                     *)
(***************************************************************************)
EXTENDS Wire

VARIABLES lk, buf, mode, rcv, known, out

rvars == <<lk, buf, mode, rcv, known, out>>

-----------------------------------------------------------------------------
(* Constants of the protocol *)

HeaderLen == 20
SubHeaderLen == 4

PAD == 1          ACKNACK == 6      HEARTBEAT == 7    GAP == 8
INFO_TS == 9      INFO_SRC == 12    INFO_REPLY_IP4 == 13
INFO_DST == 14    INFO_REPLY == 15  NACK_FRAG == 18   HEARTBEAT_FRAG == 19
DATA == 21        DATA_FRAG == 22

EntityType(kind) ==
    CASE kind = ACKNACK        -> "AckNack"
      [] kind = GAP            -> "Gap"
      [] kind = HEARTBEAT      -> "Heartbeat"
      [] kind = HEARTBEAT_FRAG -> "HeartbeatFrag"
      [] kind = NACK_FRAG      -> "NackFrag"

EntityKinds == {ACKNACK, GAP, HEARTBEAT, HEARTBEAT_FRAG, NACK_FRAG}
ContextKinds == {INFO_TS, INFO_SRC, INFO_REPLY_IP4, INFO_DST, INFO_REPLY}

MulticastFlag == 1      \* INFO_REPLY, INFO_REPLY_IP4: bit 1
InvalidateFlag == 1     \* INFO_TS: bit 1

SupportedMajor == 2

-----------------------------------------------------------------------------
(* Locators in the context.  `lax` locators are only determined to be of   *)
(* invalid kind (what a compact IPv4 locator without usable address gives).*)

Exact(b) == [lax |-> FALSE, b |-> b]
Lax(b)   == [lax |-> TRUE, b |-> b]

LocatorMatches(m, b) == m.b = b \/ (m.lax /\ At(b, 1, 4) = KindInvalid)

LocatorsMatch(ms, bs) ==
    Len(ms) = Len(bs) /\ \A i \in DOMAIN ms : LocatorMatches(ms[i], bs[i])

InvalidLocator(kind) == Exact(kind \o Zeros(20))

Ip4Locator(address, port) ==
    LET full == KindUdp4 \o port \o Zeros(12) \o address
    IN  IF IsZero(address) \/ ~IsZero(At(port, 1, 2)) THEN Lax(full) ELSE Exact(full)

-----------------------------------------------------------------------------
(* The context of a receiver that has seen nothing but a header *)

Fresh(kind, version, vendor, prefix) ==
    [ver |-> version, ven |-> vendor, src |-> prefix, dst |-> Zeros(12),
     uni |-> <<InvalidLocator(kind)>>, mul |-> <<InvalidLocator(kind)>>,
     ht |-> FALSE, ts |-> Zeros(8)]

ReceiverInit(kind) ==
    /\ lk = kind
    /\ buf = <<>>
    /\ mode = "H"
    /\ rcv = Fresh(kind, <<2, 4>>, <<0, 0>>, Zeros(12))
    /\ known = TRUE
    /\ out = [r |-> "none"]

Nothing == [r |-> "none"]
Error == [r |-> "err"]
ItemOf(ty, val, flags) == [r |-> "item", k |-> ty, val |-> val, fl |-> flags]

-----------------------------------------------------------------------------
(* Bytes arrive *)

Feed(b) ==
    /\ buf' = buf \o b
    /\ UNCHANGED <<lk, mode, rcv, known, out>>

-----------------------------------------------------------------------------
(* Message headers *)

HeaderComplete == mode = "H" /\ Len(buf) >= HeaderLen

TheHeader == Parse("Header", SubSeq(buf, 1, HeaderLen), FALSE).val

HeaderValid == /\ TheHeader[1] = <<82, 84, 80, 83>>
               /\ TheHeader[2][1] <= SupportedMajor

AwaitHeader ==
    /\ mode = "H" /\ Len(buf) < HeaderLen
    /\ out' = Nothing
    /\ UNCHANGED <<lk, buf, mode, rcv, known>>

AcceptHeader ==
    /\ HeaderComplete /\ HeaderValid
    /\ out' = Nothing
    /\ buf' = SubSeq(buf, HeaderLen + 1, Len(buf))
    /\ mode' = "S"
    /\ rcv' = Fresh(lk, TheHeader[2], TheHeader[3], TheHeader[4])
    /\ known' = TRUE
    /\ UNCHANGED lk

Discard ==        \* an error: the rest of the message is lost
    /\ out' = Error
    /\ buf' = <<>>
    /\ mode' = "H"
    /\ known' = FALSE
    /\ UNCHANGED <<lk, rcv>>

RejectHeader == HeaderComplete /\ ~HeaderValid /\ Discard

-----------------------------------------------------------------------------
(* Submessages: framing *)

Kind     == buf[1]
Flags    == buf[2]
FlagOn(k) == Bit(Flags, k) = 1
Little   == FlagOn(0)

(* of the submessage that starts at the front of b *)
DeclaredIn(b) == IF Bit(b[2], 0) = 1 THEN b[3] + 256 * b[4] ELSE 256 * b[3] + b[4]
Declared == DeclaredIn(buf)

(* more bytes are needed to decode what b starts with *)
Incomplete(b, m) ==
    IF m = "H" THEN Len(b) < HeaderLen
    ELSE IF Len(b) < SubHeaderLen THEN TRUE
    ELSE Len(b) < SubHeaderLen + DeclaredIn(b)

SubmessageComplete == mode = "S" /\ ~Incomplete(buf, mode)

(* it extends over everything at hand and ends the message *)
Last == Declared = 0 /\ Kind \notin {PAD, INFO_TS}

ContentLen == IF Last THEN Len(buf) - SubHeaderLen ELSE Declared
Content == SubSeq(buf, SubHeaderLen + 1, SubHeaderLen + ContentLen)

AwaitSubmessage ==
    /\ mode = "S" /\ ~SubmessageComplete
    /\ out' = Nothing
    /\ UNCHANGED <<lk, buf, mode, rcv, known>>

(* take the submessage off the buffer *)
Consume ==
    /\ buf' = SubSeq(buf, SubHeaderLen + ContentLen + 1, Len(buf))
    /\ mode' = IF Last THEN "H" ELSE "S"
    /\ UNCHANGED <<lk, known>>

-----------------------------------------------------------------------------
(* Submessages: decoding the content *)

EntityParse == Parse(EntityType(Kind), Content, Little)

SrcParse == Parse("InfoSource", Content, Little)
DstParse == Parse("InfoDestination", Content, Little)
TsParse  == Parse("Time_t", Content, Little)

ReplyParse ==
    LET u == ParseField(Locs, Content, 1, Little, <<0>>)
    IN  IF ~u.ok THEN Bad
        ELSE IF ~FlagOn(MulticastFlag) THEN [ok |-> TRUE, val |-> <<u.val, <<>>>>, len |-> u.len]
        ELSE LET m == ParseField(Locs, Content, 1 + u.len, Little, <<0>>)
             IN  IF ~m.ok THEN Bad ELSE [ok |-> TRUE, val |-> <<u.val, m.val>>, len |-> u.len + m.len]

Ip4Layout == <<Num(4), Num(4)>>
ReplyIp4Parse ==
    ParseFields(IF FlagOn(MulticastFlag) THEN Ip4Layout \o Ip4Layout ELSE Ip4Layout,
                Content, 1, Little, <<>>)

(* the parse of a submessage of supported kind *)
ContentParse ==
    CASE Kind \in EntityKinds -> EntityParse
      [] Kind = INFO_SRC -> SrcParse
      [] Kind = INFO_DST -> DstParse
      [] Kind = INFO_REPLY -> ReplyParse
      [] Kind = INFO_REPLY_IP4 -> ReplyIp4Parse
      [] Kind = INFO_TS -> IF FlagOn(InvalidateFlag) THEN [ok |-> TRUE, val |-> <<>>, len |-> 0]
                           ELSE TsParse
      [] OTHER -> [ok |-> TRUE, val |-> <<>>, len |-> 0]

(* the content has bytes that its kind does not use *)
Trailing == Len(Content) > ContentParse.len

Entity(kind) ==
    /\ SubmessageComplete /\ Kind = kind
    /\ LET p == EntityParse
       IN  /\ p.ok
           /\ out' = ItemOf(EntityType(kind), p.val, Flags)
    /\ Consume
    /\ UNCHANGED rcv

AckNack       == Entity(ACKNACK)
Gap           == Entity(GAP)
Heartbeat     == Entity(HEARTBEAT)
HeartbeatFrag == Entity(HEARTBEAT_FRAG)
NackFrag      == Entity(NACK_FRAG)

InfoSrc ==
    /\ SubmessageComplete /\ Kind = INFO_SRC
    /\ LET p == SrcParse
           k == IF Std THEN 1 ELSE 0
       IN  /\ p.ok
           /\ rcv' = [rcv EXCEPT !.ver = p.val[1 + k], !.ven = p.val[2 + k], !.src = p.val[3 + k],
                                 !.uni = <<InvalidLocator(KindInvalid)>>,
                                 !.mul = <<InvalidLocator(KindInvalid)>>,
                                 !.ht = FALSE]
    /\ out' = Nothing
    /\ Consume

InfoDst ==
    /\ SubmessageComplete /\ Kind = INFO_DST
    /\ LET p == DstParse
       IN  p.ok /\ rcv' = [rcv EXCEPT !.dst = p.val[1]]
    /\ out' = Nothing
    /\ Consume

InfoReply ==
    /\ SubmessageComplete /\ Kind = INFO_REPLY
    /\ LET p == ReplyParse
           exact(ls) == [i \in DOMAIN ls |-> Exact(ls[i])]
       IN  p.ok /\ rcv' = [rcv EXCEPT !.uni = exact(p.val[1]), !.mul = exact(p.val[2])]
    /\ out' = Nothing
    /\ Consume

InfoReplyIp4 ==
    /\ SubmessageComplete /\ Kind = INFO_REPLY_IP4
    /\ LET p == ReplyIp4Parse
       IN  /\ p.ok
           /\ rcv' = [rcv EXCEPT
                        !.uni = <<Ip4Locator(p.val[1], p.val[2])>>,
                        !.mul = IF FlagOn(MulticastFlag) THEN <<Ip4Locator(p.val[3], p.val[4])>>
                                ELSE <<>>]
    /\ out' = Nothing
    /\ Consume

InfoTs ==
    /\ SubmessageComplete /\ Kind = INFO_TS
    /\ IF FlagOn(InvalidateFlag)
       THEN rcv' = [rcv EXCEPT !.ht = FALSE]
       ELSE LET p == TsParse
            IN  p.ok /\ rcv' = [rcv EXCEPT !.ht = TRUE, !.ts = p.val[1] \o p.val[2]]
    /\ out' = Nothing
    /\ Consume

Skip ==
    /\ out' = Nothing
    /\ Consume
    /\ UNCHANGED rcv

Pad           == SubmessageComplete /\ Kind = PAD /\ Skip
SkipData      == SubmessageComplete /\ Kind \in {DATA, DATA_FRAG} /\ Skip
SkipUnknown   == /\ SubmessageComplete
                 /\ Kind \notin EntityKinds \cup ContextKinds \cup {PAD, DATA, DATA_FRAG}
                 /\ Skip

Malformed ==
    /\ SubmessageComplete
    /\ ~ContentParse.ok
    /\ Discard

-----------------------------------------------------------------------------
(* The datagram ends: so does the message *)

EndClean ==
    /\ buf = <<>>
    /\ out' = Nothing
    /\ mode' = "H"
    /\ UNCHANGED <<lk, buf, rcv, known>>

EndTruncated ==
    /\ buf # <<>> /\ Incomplete(buf, mode)
    /\ Discard

End == EndClean \/ EndTruncated

(* a new datagram arrives; only between messages *)
Datagram(b) ==
    /\ mode = "H" /\ buf = <<>>
    /\ Feed(b)

-----------------------------------------------------------------------------
Await == AwaitHeader \/ AwaitSubmessage

EntityAction == AckNack \/ Gap \/ Heartbeat \/ HeartbeatFrag \/ NackFrag

Progress ==
    \/ AcceptHeader \/ RejectHeader
    \/ EntityAction
    \/ InfoSrc \/ InfoDst \/ InfoReply \/ InfoReplyIp4 \/ InfoTs
    \/ Pad \/ SkipData \/ SkipUnknown
    \/ Malformed

Decode == Await \/ Progress
DecodeEof == End \/ Progress

=============================================================================
