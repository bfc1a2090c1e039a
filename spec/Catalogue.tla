----------------------------- MODULE Catalogue ------------------------------
(***************************************************************************)
(* Message headers and submessages as descriptions, from which their bytes *)
(* are computed.  The model-checked environments send messages made of     *)
(* these, and the properties are stated over the descriptions.             *)
(***************************************************************************)
EXTENDS Receiver

-----------------------------------------------------------------------------
(* Values *)

P1 == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>
P2 == <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>
E1 == <<0, 0, 3, 199>>
E2 == <<0, 16, 3, 194>>
N(x) == <<0, 0, 0, 0>> \o FromNat(x, 4)
BigN == <<0, 0, 0, 1, 128, 0, 0, 2>>
NegN == <<255, 255, 255, 255, 0, 0, 0, 0>>
C(x) == FromNat(x, 4)

L1 == KindUdp4 \o C(8080) \o Zeros(12) \o <<127, 0, 0, 1>>
L2 == KindUdp6 \o C(7171) \o <<32, 1, 13, 184, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>
L0 == KindInvalid \o C(0) \o Zeros(16)

(* descriptions *)
Hd(magic, ver, ven, pfx) == [a |-> "hdr", magic |-> magic, ver |-> ver, ven |-> ven, pfx |-> pfx]
Rtps == <<82, 84, 80, 83>>

Ent(kind, val, le, fl, tail, z) ==
    [a |-> "ent", kind |-> kind, val |-> val, le |-> le, fl |-> fl, tail |-> tail, z |-> z]
Src(ver, ven, pfx, le, z) == [a |-> "src", ver |-> ver, ven |-> ven, pfx |-> pfx, le |-> le, z |-> z]
Dst(pfx, le, tail, z) == [a |-> "dst", pfx |-> pfx, le |-> le, tail |-> tail, z |-> z]
Reply(us, hasm, ms, le, tail) == [a |-> "reply", us |-> us, hasm |-> hasm, ms |-> ms, le |-> le, tail |-> tail]
Ip4(ad, po, hasm, mad, mpo, le) ==
    [a |-> "ip4", ad |-> ad, po |-> po, hasm |-> hasm, mad |-> mad, mpo |-> mpo, le |-> le]
Ts(sec, frac, le) == [a |-> "ts", sec |-> sec, frac |-> frac, le |-> le]
TsInv(le, tail) == [a |-> "tsinv", le |-> le, tail |-> tail]
Filler(kind, n, le, z) == [a |-> "skip", kind |-> kind, n |-> n, le |-> le, z |-> z]
Broken(kind, fl, content, z) == [a |-> "bad", kind |-> kind, fl |-> fl, content |-> content, z |-> z]

Headers == {
    Hd(Rtps, <<2, 4>>, <<1, 15>>, P1),
    Hd(Rtps, <<1, 0>>, <<0, 0>>, P2)}
BadHeaders == {
    Hd(Rtps, <<3, 0>>, <<1, 15>>, P1),
    Hd(<<82, 84, 80, 84>>, <<2, 1>>, <<1, 15>>, P1)}

Offsets == {0, 5, 31, 32, 100}

Units ==
    UNION {
      { Ent(ACKNACK, <<E1, E2, N(7), {}, C(1)>>, le, 0, 0, FALSE),
        Ent(ACKNACK, <<E1, E2, N(300), Offsets, C(2)>>, le, 2, 0, FALSE),
        Ent(ACKNACK, <<E2, E1, BigN, {255}, C(3)>>, le, 0, 3, FALSE),
        Ent(GAP, <<E1, E2, N(3), N(5), {0, 1}>>, le, 0, 0, FALSE),
        Ent(HEARTBEAT, <<E1, E2, N(1), NegN, C(9)>>, le, 4, 0, FALSE),
        Ent(HEARTBEAT, <<E2, E1, N(7), N(70000), C(9)>>, le, 0, 0, TRUE),
        Ent(HEARTBEAT_FRAG, <<E1, E2, N(5), C(66000), C(12)>>, le, 0, 0, FALSE),
        Ent(NACK_FRAG, <<E1, E2, N(6), C(70000), {0, 64}, C(7)>>, le, 0, 0, FALSE),
        Src(<<2, 1>>, <<1, 3>>, P2, le, FALSE),
        Dst(P2, le, 0, FALSE),
        Reply(<<L1, L2>>, TRUE, <<L0>>, le, 0),
        Reply(<<L2>>, FALSE, <<>>, le, 5),
        Ip4(<<10, 0, 0, 1>>, C(7400), TRUE, <<239, 255, 0, 1>>, C(7401), le),
        Ip4(<<10, 0, 0, 2>>, C(7402), FALSE, <<>>, <<>>, le),
        Ts(<<92, 0, 0, 1>>, <<128, 0, 0, 3>>, le),
        TsInv(le, 0),
        Filler(PAD, 5, le, FALSE),
        Filler(128, 6, le, FALSE)
      } : le \in {TRUE, FALSE}}
    \cup {
        Dst(Zeros(12), TRUE, 0, FALSE), Dst(P1, FALSE, 2, FALSE), Dst(P2, TRUE, 0, TRUE),
        Src(<<9, 9>>, <<0, 0>>, P1, FALSE, TRUE),
        Reply(<<>>, TRUE, <<>>, TRUE, 0), Reply(<<>>, FALSE, <<>>, FALSE, 0),
        Ip4(Zeros(4), C(7402), TRUE, <<1, 2, 3, 4>>, C(70000), TRUE),
        TsInv(TRUE, 8), Ts(<<255, 255, 255, 255>>, <<255, 255, 255, 255>>, TRUE),
        Filler(PAD, 0, TRUE, FALSE), Filler(PAD, 0, FALSE, FALSE), Filler(PAD, 300, TRUE, FALSE),
        Filler(0, 0, TRUE, TRUE), Filler(129, 259, FALSE, FALSE),
        Filler(DATA, 24, TRUE, FALSE), Filler(DATA_FRAG, 0, TRUE, TRUE),
        Broken(HEARTBEAT, 1, Zeros(27), FALSE),
        Broken(GAP, 1, Zeros(10), TRUE),
        Broken(ACKNACK, 0, E1 \o E2 \o N(1) \o C(257) \o Zeros(40), FALSE),
        Broken(NACK_FRAG, 0, E1 \o E2 \o N(1) \o C(1) \o <<255, 255, 255, 255>> \o Zeros(40), FALSE),
        Broken(INFO_SRC, 1, Zeros(15), FALSE), Broken(INFO_DST, 0, Zeros(11), FALSE),
        Broken(INFO_REPLY, 0, C(1) \o C(7) \o Zeros(20), FALSE),
        Broken(INFO_REPLY, 1, <<255, 255, 255, 255>> \o Zeros(20), FALSE),
        Broken(INFO_REPLY, 2, C(1) \o L1 \o C(2) \o L1, FALSE),
        Broken(INFO_REPLY_IP4, 0, Zeros(7), FALSE), Broken(INFO_REPLY_IP4, 3, Zeros(15), FALSE),
        Broken(INFO_TS, 1, <<>>, FALSE), Broken(INFO_TS, 0, Zeros(7), FALSE)}

-----------------------------------------------------------------------------
(* The bytes of a description *)

LE(le) == IF le THEN 1 ELSE 0
Ones(n) == [i \in 1..n |-> 165]

BytesOf(d) ==
    CASE d.a = "hdr"   -> d.magic \o d.ver \o d.ven \o d.pfx
      [] d.a = "ent"   -> Framed(d.kind, LE(d.le) + d.fl, Enc(EntityType(d.kind), d.val, d.le) \o Ones(d.tail), d.z)
      [] d.a = "src"   -> Framed(INFO_SRC, LE(d.le), (IF Std THEN Enc("InfoSource", <<Ones(4), d.ver, d.ven, d.pfx>>, d.le)
                                               ELSE Enc("InfoSource", <<d.ver, d.ven, d.pfx>>, d.le)), d.z)
      [] d.a = "dst"   -> Framed(INFO_DST, LE(d.le), d.pfx \o Ones(d.tail), d.z)
      [] d.a = "reply" -> Framed(INFO_REPLY, LE(d.le) + (IF d.hasm THEN 2 ELSE 0),
                                 Enc("LocatorList_t", <<d.us>>, d.le)
                                   \o (IF d.hasm THEN Enc("LocatorList_t", <<d.ms>>, d.le) ELSE <<>>)
                                   \o Ones(d.tail), FALSE)
      [] d.a = "ip4"   -> Framed(INFO_REPLY_IP4, LE(d.le) + (IF d.hasm THEN 2 ELSE 0),
                                 InOrder(d.ad, d.le) \o InOrder(d.po, d.le)
                                   \o (IF d.hasm THEN InOrder(d.mad, d.le) \o InOrder(d.mpo, d.le) ELSE <<>>), FALSE)
      [] d.a = "ts"    -> Framed(INFO_TS, LE(d.le), InOrder(d.sec, d.le) \o InOrder(d.frac, d.le), FALSE)
      [] d.a = "tsinv" -> Framed(INFO_TS, LE(d.le) + 2, Ones(d.tail), FALSE)
      [] d.a = "skip"  -> Framed(d.kind, LE(d.le), Ones(d.n), d.z)
      [] d.a = "bad"   -> Framed(d.kind, d.fl, d.content, d.z)

EndsMessage(d) ==    \* declared length zero and not PAD or INFO_TS
    \/ d.a \in {"ent", "src", "dst", "skip", "bad"} /\ d.z

Valid(h) == h.magic = Rtps /\ h.ver[1] <= 2
=============================================================================
