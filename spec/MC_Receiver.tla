---------------------------- MODULE MC_Receiver ----------------------------
(***************************************************************************)
(* Model checking of Receiver in an environment that sends messages made   *)
(* of catalogue submessages, whole or cut in two chunks.  The              *)
(* invariants state what the protocol demands declaratively, over the      *)
(* descriptions of what was sent, so that they check the byte machine.     *)
(*                                                                         *)
(* Every complete behaviour is also a schedule for the real code: with     *)
(* EMIT set, TLC prints it.                                                *)
(***************************************************************************)
EXTENDS Catalogue, TLC, Json, IOUtils

CONSTANTS Depth,     \* submessages per message
          Cuts       \* at which byte offsets a submessage may be cut in two chunks

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

VARIABLES sent,      \* descriptions sent in the current message, header first
          msgs,      \* completed messages (descriptions), for the schedule
          items,     \* items decoded in the current message
          failed,    \* the current message was rejected or invalid
          rest,      \* second part of a submessage that was cut
          step       \* "env": the environment moves, "dec": decode is called

mvars == <<rvars, sent, msgs, items, failed, rest, step>>

-----------------------------------------------------------------------------
Init ==
    /\ \E k \in {KindInvalid, KindUdp4} : ReceiverInit(k)
    /\ sent = <<>> /\ msgs = <<>> /\ items = <<>> /\ failed = FALSE /\ rest = <<>>
    /\ step = "env"

Send(d, cut) ==
    LET b == BytesOf(d)
        c == IF cut < Len(b) THEN cut ELSE Len(b)
    IN  /\ Feed(SubSeq(b, 1, c))
        /\ rest' = SubSeq(b, c + 1, Len(b))
        /\ sent' = Append(sent, d)
        /\ step' = "dec"
        /\ UNCHANGED <<msgs, items, failed>>

EnvHeader ==
    /\ step = "env" /\ rest = <<>> /\ sent = <<>> /\ Len(msgs) < 2
    /\ \E d \in IF msgs = <<>> THEN Headers \cup BadHeaders
                ELSE {Hd(Rtps, <<2, 1>>, <<9, 9>>, P2)} : Send(d, 1000)

EnvSubmessage ==
    /\ step = "env" /\ rest = <<>> /\ sent # <<>> /\ mode = "S"
    /\ Len(sent) <= (IF msgs = <<>> THEN Depth ELSE 1)
    /\ \E d \in IF msgs = <<>> THEN Units ELSE {Ent(HEARTBEAT, <<E1, E2, N(1), N(2), C(3)>>, TRUE, 0, 0, FALSE)},
          c \in Cuts \cup {100000} :
          \* an open-ended submessage is complete with whatever is at hand
          /\ EndsMessage(d) => c = 100000
          /\ Send(d, c)

EnvRest ==
    /\ step = "env" /\ rest # <<>>
    /\ Feed(rest)
    /\ rest' = <<>>
    /\ step' = "dec"
    /\ UNCHANGED <<sent, msgs, items, failed>>

(* the message is over for the receiver; another may follow *)
EnvNext ==
    /\ step = "env" /\ rest = <<>> /\ sent # <<>> /\ mode = "H"
    /\ msgs' = Append(msgs, sent)
    /\ sent' = <<>> /\ items' = <<>> /\ failed' = FALSE
    /\ UNCHANGED <<rvars, rest, step>>

Env == EnvHeader \/ EnvSubmessage \/ EnvRest \/ EnvNext

Dec(A, n) ==
    /\ step = "dec"
    /\ A
    /\ items' = IF out'.r = "item" THEN Append(items, out') ELSE items
    /\ failed' = (failed \/ out'.r = "err")
    /\ step' = "env"
    /\ UNCHANGED <<sent, msgs, rest>>

Next ==
    \/ Env
    \/ Dec(AwaitHeader, 1) \/ Dec(AcceptHeader, 1) \/ Dec(RejectHeader, 1)
    \/ Dec(AwaitSubmessage, 1)
    \/ Dec(AckNack, 1) \/ Dec(Gap, 1) \/ Dec(Heartbeat, 1) \/ Dec(HeartbeatFrag, 1) \/ Dec(NackFrag, 1)
    \/ Dec(InfoSrc, 1) \/ Dec(InfoDst, 1) \/ Dec(InfoReply, 1) \/ Dec(InfoReplyIp4, 1) \/ Dec(InfoTs, 1)
    \/ Dec(Pad, 1) \/ Dec(SkipData, 1) \/ Dec(SkipUnknown, 1)
    \/ Dec(Malformed, 1)

Spec == Init /\ [][Next]_mvars

-----------------------------------------------------------------------------
(* The properties, over descriptions *)

Settled == step = "env" /\ rest = <<>>

H == sent[1]

LastOf(as) ==      \* the latest description of one of these kinds, 0 if none
    LET I == {i \in 2..Len(sent) : sent[i].a \in as}
    IN  IF I = {} THEN 0 ELSE MaxOf(I)

Admitted == Settled /\ sent # <<>> /\ Valid(H) /\ ~failed

(* C10: admission *)
Admission == Settled /\ sent # <<>> =>
    (failed <=> (~Valid(H) \/ \E i \in DOMAIN sent : sent[i].a = "bad"))

(* C02, C11: nothing is left over, the message ends exactly when it should *)
Framing == Settled => /\ buf = <<>>
                      /\ (sent # <<>> => (mode = "H" <=> (failed \/ EndsMessage(sent[Len(sent)]))))

(* C04: the items are the entity submessages of the message, in order *)
EntitiesSent ==
    LET S == SelectSeq(sent, LAMBDA d : d.a = "ent")
    IN  [i \in DOMAIN S |-> ItemOf(EntityType(S[i].kind), S[i].val, LE(S[i].le) + S[i].fl)]
ItemsAreEntities == Settled /\ sent # <<>> => items = EntitiesSent

(* C05 *)
SourceInForce == Admitted =>
    LET i == LastOf({"src"})
        s == IF i = 0 THEN H ELSE sent[i]
    IN  rcv.ver = s.ver /\ rcv.ven = s.ven /\ rcv.src = s.pfx

(* C06 *)
DestinationInForce == Admitted =>
    LET i == LastOf({"dst"})
    IN  rcv.dst = IF i = 0 THEN Zeros(12) ELSE sent[i].pfx

(* C07 *)
RepliesInForce == Admitted =>
    LET i == LastOf({"src", "reply", "ip4"})
        d == sent[i]
        exact(ls) == [k \in DOMAIN ls |-> Exact(ls[k])]
    IN  CASE i = 0 -> rcv.uni = <<InvalidLocator(lk)>> /\ rcv.mul = <<InvalidLocator(lk)>>
          [] i # 0 /\ d.a = "src" -> rcv.uni = <<Exact(L0)>> /\ rcv.mul = <<Exact(L0)>>
          [] i # 0 /\ d.a = "reply" -> rcv.uni = exact(d.us) /\ rcv.mul = exact(d.ms)
          [] i # 0 /\ d.a = "ip4" ->
                /\ rcv.uni = <<Ip4Locator(d.ad, d.po)>>
                /\ rcv.mul = IF d.hasm THEN <<Ip4Locator(d.mad, d.mpo)>> ELSE <<>>

(* C08 *)
TimestampInForce == Admitted =>
    LET i == LastOf({"src", "ts", "tsinv"})
    IN  IF i = 0 \/ sent[i].a # "ts" THEN ~rcv.ht
        ELSE rcv.ht /\ rcv.ts = sent[i].sec \o sent[i].frac

(* C03: an incomplete submessage changes nothing; action property *)
AwaitIsIdle == [][ (step = "dec" /\ (ENABLED AwaitHeader \/ ENABLED AwaitSubmessage))
                   => UNCHANGED <<lk, buf, mode, rcv, known>> /\ out'.r = "none" ]_mvars

(* C01, and the machine itself: always exactly one decode action *)
B(A) == IF A THEN 1 ELSE 0
Deterministic == step = "dec" =>
    1 = B(ENABLED AwaitHeader) + B(ENABLED AcceptHeader) + B(ENABLED RejectHeader)
        + B(ENABLED AwaitSubmessage) + B(ENABLED AckNack) + B(ENABLED Gap) + B(ENABLED Heartbeat)
        + B(ENABLED HeartbeatFrag) + B(ENABLED NackFrag) + B(ENABLED InfoSrc) + B(ENABLED InfoDst)
        + B(ENABLED InfoReply) + B(ENABLED InfoReplyIp4) + B(ENABLED InfoTs) + B(ENABLED Pad)
        + B(ENABLED SkipData) + B(ENABLED SkipUnknown) + B(ENABLED Malformed)

(* C09: after a header the context is that of a fresh receiver *)
NoLeak == Settled /\ Len(sent) = 1 /\ ~failed => rcv = Fresh(lk, H.ver, H.ven, H.pfx)

-----------------------------------------------------------------------------
(* Schedules for the real code: one for each behaviour that has ended *)

Ended == /\ Settled
         /\ IF msgs = <<>> THEN Len(sent) = Depth + 1 /\ mode = "S"
            ELSE Len(msgs) = 1 /\ Len(sent) = 2
LkWord == IF lk = KindUdp4 THEN "v4" ELSE "inv"
Schedule ==
    [lk |-> LkWord,
     msgs |-> [i \in 1..(Len(msgs) + 1) |->
                 LET m == IF i <= Len(msgs) THEN msgs[i] ELSE sent
                 IN  [j \in DOMAIN m |-> BytesOf(m[j])]],
     what |-> [i \in 1..(Len(msgs) + 1) |-> IF i <= Len(msgs) THEN msgs[i] ELSE sent]]
Emitted == Emit /\ Ended => PrintT("SCHEDULE " \o ToJson(Schedule))
=============================================================================
