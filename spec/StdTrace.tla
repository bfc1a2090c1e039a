------------------------------ MODULE StdTrace ------------------------------
(***************************************************************************)
(* Checks recorded executions of the real message receiver against the     *)
(* receiver of the standard (Receiver with Std = TRUE): messages laid out  *)
(* as DDSI-RTPS prescribes must be decoded to the values they denote (C28).*)
(*                                                                         *)
(* Two deviations are known and not repaired (known-findings.txt).  They   *)
(* are recognised by the exact wrong value they lead to, which is computed *)
(* here; any other value is a violation.                                   *)
(***************************************************************************)
EXTENDS Receiver, TraceBase

(* the same layouts, with the two known deviations *)
Lib == INSTANCE Wire WITH Std <- FALSE

VARIABLES obs,     \* the context shown last
          alt      \* the source the known deviation makes of the last INFO_SRC

tvars == <<rvars, basevars, obs, alt>>

Init ==
    /\ BaseInit
    /\ ReceiverInit(Traces[tid].lk)
    /\ obs = Traces[tid].rcv
    /\ alt = <<>>

-----------------------------------------------------------------------------
Range(s) == {s[i] : i \in DOMAIN s}
BitsAt(ty, i) == Layout(ty)[i].t = "bits"

Known(ident) == PrintT("KNOWN " \o ToJson(<<tid, ident>>))

(* the values of item `it` are `val`; Members does not depend on Std *)
ItemIs(o, val, it) ==
    /\ it.k = o.k
    /\ it.fl \in {-1, o.fl}
    /\ Len(it.f) = Len(val)
    /\ \A i \in DOMAIN val :
          IF BitsAt(o.k, i)
          THEN LET m == Members(val[i-1], val[i], o.k # "NackFrag")
               IN  Range(it.f[i]) = m /\ Len(it.f[i]) = Cardinality(m)
          ELSE it.f[i] = val[i]

SourceIs(ver, ven, pfx) == obs'.ver = ver /\ obs'.ven = ven /\ obs'.src = pfx

SourceOk ==
    \/ SourceIs(rcv'.ver, rcv'.ven, rcv'.src)
    \/ /\ alt' # <<>> /\ SourceIs(alt'[1], alt'[2], alt'[3])
       /\ Known("info-src-unused-long")
DestOk   == obs'.dst = rcv'.dst
LocsOk   == LocatorsMatch(rcv'.uni, obs'.uni) /\ LocatorsMatch(rcv'.mul, obs'.mul)
TimeOk   == obs'.ht = rcv'.ht /\ (rcv'.ht => obs'.ts = rcv'.ts)
ContextOk == SourceOk /\ DestOk /\ LocsOk /\ TimeOk

ROk == ev.r = out'.r
LeftOk == ev.left = Len(buf') /\ ev.suf

(* messages that the standard does not allow are not judged *)
Nonconforming == {"RejectHeader", "Malformed", "EndTruncated"}

(* is the call over after this step? As in ReceiverTrace *)
Awaits == {"AwaitHeader", "AwaitSubmessage"}
LeftThen == IF ev.r \in {"none", "item"} THEN ev.left ELSE 0
Stops(n) ==
    \/ out'.r # "none" \/ n \in Awaits \cup {"EndClean", "EndTruncated"}
    \/ ~(ev.e = "eof" /\ ev.r = "none") /\ Len(buf') <= LeftThen

(* bits numbered from the least significant one *)
ItemOk ==
    ev.r = "item" =>
       \/ ItemIs(out', out'.val, ev.it)
       \/ /\ ItemIs(out', Lib!Parse(EntityType(Kind), Content, Little).val, ev.it)
          /\ Known("bitmap-bit-order")

(* the INFO_SRC content read without its first field, `unused` *)
LibSource == Lib!Parse("InfoSource", Content, Little).val

Judge(n) ==
    /\ alt' = CASE n = "InfoSrc" -> LibSource [] n = "AcceptHeader" -> <<>> [] OTHER -> alt
    /\ IF Stops(n)
       THEN /\ obs' = IF ev.ch THEN ev.rcv ELSE obs
            /\ Take(n, IF n \in Nonconforming THEN "dead"
                       ELSE Verdict(~ROk \/ ~LeftOk \/ ~ItemOk \/ (known' /\ ~ContextOk), FALSE))
       ELSE /\ l' = l
            /\ name' = n /\ hits' = Counted(n)
            /\ UNCHANGED <<tid, status, obs>>

Call == On("dec") \/ On("eof")

-----------------------------------------------------------------------------
TAwaitHeader     == On("dec") /\ AwaitHeader     /\ Judge("AwaitHeader")
TAcceptHeader    == Call /\ AcceptHeader    /\ Judge("AcceptHeader")
TRejectHeader    == Call /\ RejectHeader    /\ Judge("RejectHeader")
TAwaitSubmessage == On("dec") /\ AwaitSubmessage /\ Judge("AwaitSubmessage")
TAckNack         == Call /\ AckNack         /\ Judge("AckNack")
TGap             == Call /\ Gap             /\ Judge("Gap")
THeartbeat       == Call /\ Heartbeat       /\ Judge("Heartbeat")
THeartbeatFrag   == Call /\ HeartbeatFrag   /\ Judge("HeartbeatFrag")
TNackFrag        == Call /\ NackFrag        /\ Judge("NackFrag")
TInfoSrc         == Call /\ InfoSrc         /\ Judge("InfoSrc")
TEndClean        == On("eof") /\ EndClean        /\ Judge("EndClean")
TEndTruncated    == On("eof") /\ EndTruncated    /\ Judge("EndTruncated")
TInfoDst         == Call /\ InfoDst         /\ Judge("InfoDst")
TInfoReply       == Call /\ InfoReply       /\ Judge("InfoReply")
TInfoReplyIp4    == Call /\ InfoReplyIp4    /\ Judge("InfoReplyIp4")
TInfoTs          == Call /\ InfoTs          /\ Judge("InfoTs")
TPad             == Call /\ Pad             /\ Judge("Pad")
TSkipData        == Call /\ SkipData        /\ Judge("SkipData")
TSkipUnknown     == Call /\ SkipUnknown     /\ Judge("SkipUnknown")
TMalformed       == Call /\ Malformed       /\ Judge("Malformed")

TFeed ==
    /\ On("feed") /\ Feed(ev.b)
    /\ Take("Feed", "live")
    /\ UNCHANGED <<obs, alt>>

TDatagram ==
    /\ On("dgram")
    /\ IF mode = "H" /\ buf = <<>> THEN Datagram(ev.b) ELSE UNCHANGED rvars
    /\ Take("Datagram", IF mode = "H" /\ buf = <<>> THEN "live" ELSE "dead")
    /\ UNCHANGED <<obs, alt>>

TDatagramDone ==
    /\ On("dend")
    /\ Take("DatagramDone", "live")
    /\ UNCHANGED <<rvars, obs, alt>>

Finished == Ended /\ UNCHANGED tvars

Next ==
    \/ TAwaitHeader \/ TAcceptHeader \/ TRejectHeader \/ TAwaitSubmessage
    \/ TAckNack \/ TGap \/ THeartbeat \/ THeartbeatFrag \/ TNackFrag
    \/ TInfoSrc \/ TEndClean \/ TEndTruncated
    \/ TInfoDst \/ TInfoReply \/ TInfoReplyIp4 \/ TInfoTs
    \/ TPad \/ TSkipData \/ TSkipUnknown \/ TMalformed
    \/ TFeed \/ TDatagram \/ TDatagramDone
    \/ Finished

Spec == Init /\ [][Next]_tvars

RView == <<tid, l, Len(buf), status>>
=============================================================================
