--------------------------- MODULE ReceiverTrace ---------------------------
(***************************************************************************)
(* Checks recorded executions of the real message receiver against the     *)
(* actions of Receiver.  The specification moves by itself from the bytes  *)
(* fed; every observation is judged against it.                            *)
(*                                                                         *)
(* One call of the real decoder is one event, but several steps of the     *)
(* specification: it makes silent steps until the call is over (Stops).    *)
(***************************************************************************)
EXTENDS Receiver, TraceBase

VARIABLES obs,      \* the context shown last
          fresh,    \* the last observation of a fresh receiver
          ref, u,   \* observations of a reference receiver, and how many are matched
          decoded,  \* the last action of the receiver
          moved,    \* silent steps were made in this call
          suspect,  \* one of them skipped bytes
          begun     \* a header was accepted since the last reference

tvars == <<rvars, basevars, obs, fresh, ref, u, decoded, moved, suspect, begun>>

Init ==
    /\ BaseInit
    /\ ReceiverInit(Traces[tid].lk)
    /\ obs = Traces[tid].rcv
    /\ fresh = [b |-> <<>>]
    /\ ref = <<>> /\ u = 0 /\ decoded = "Init"
    /\ moved = FALSE /\ suspect = FALSE /\ begun = FALSE

-----------------------------------------------------------------------------
Range(s) == {s[i] : i \in DOMAIN s}

BitsAt(ty, i) == Layout(ty)[i].t = "bits"

ItemMatches(o, it) ==
    /\ it.k = o.k
    /\ it.fl \in {-1, o.fl}
    /\ Len(it.f) = Len(o.val)
    /\ \A i \in DOMAIN o.val :
          IF BitsAt(o.k, i)
          THEN LET m == Members(o.val[i-1], o.val[i], o.k # "NackFrag")
               IN  Range(it.f[i]) = m /\ Len(it.f[i]) = Cardinality(m)
          ELSE it.f[i] = o.val[i]

ROk == ev.r = out'.r
LeftOk == ev.left = Len(buf') /\ ev.suf
ItemOk == ev.r = "item" => ItemMatches(out', ev.it)

SourceOk == obs'.ver = rcv'.ver /\ obs'.ven = rcv'.ven /\ obs'.src = rcv'.src
DestOk   == obs'.dst = rcv'.dst
LocsOk   == LocatorsMatch(rcv'.uni, obs'.uni) /\ LocatorsMatch(rcv'.mul, obs'.mul)
TimeOk   == obs'.ht = rcv'.ht /\ (rcv'.ht => obs'.ts = rcv'.ts)

SameContext(a, b) ==
    /\ a.ver = b.ver /\ a.ven = b.ven /\ a.src = b.src /\ a.dst = b.dst
    /\ a.uni = b.uni /\ a.mul = b.mul
    /\ a.ht = b.ht /\ (a.ht => a.ts = b.ts)

Awaits   == {"AwaitHeader", "AwaitSubmessage"}
Ends     == {"EndClean", "EndTruncated"}
Entities == {"AckNack", "Gap", "Heartbeat", "HeartbeatFrag", "NackFrag"}
Contexts == {"InfoSrc", "InfoDst", "InfoReply", "InfoReplyIp4", "InfoTs"}
Skips    == {"Pad", "SkipData", "SkipUnknown"}
WellFormed == Entities \cup Contexts \cup Skips

-----------------------------------------------------------------------------
(* Is the call over after this step?  Certainly if it gives something, or  *)
(* if there is nothing more to do.  A decoder that returns earlier than it *)
(* must (C29) is followed as far as it went.                               *)

AtEof == ev.e = "eof"
LeftThen == IF ev.r \in {"none", "item"} THEN ev.left ELSE 0

Stops(n) ==
    \/ out'.r # "none" \/ n \in Awaits \cup Ends
    \/ ~(AtEof /\ ev.r = "none") /\ Len(buf') <= LeftThen

Skipping(n) == n \in Skips \/ (n \in WellFormed /\ (Last \/ Trailing))

(* does the event agree with what the reference receiver did at this point? *)
RefAgrees ==
    LET o == ref[u + 1]
    IN  /\ ev.r = o.r
        /\ ev.r = "item" => ev.is = o.is
        /\ known' => SameContext(obs', o.rcv)

Referred == ref # <<>> /\ (ev.r # "none" \/ out'.r # "none")
RefOk == u < Len(ref) /\ RefAgrees

(* Decoding may need a multiple of the memory of the bytes at hand, no more *)
MemoryFor(bytes) == 16 * bytes + 131072

Violates(n) ==
    CASE Prop = "C01" -> ev.r \notin {"none", "item", "err"}
      [] Prop = "C02" ->
            \/ n \in WellFormed /\ ROk /\ ~LeftOk
            \/ (suspect \/ Skipping(n)) /\ ~(ROk /\ LeftOk)
            \/ n \in Awaits /\ Referred /\ ~RefOk
            \* an INFO_TS without a timestamp does not extend over what follows
            \/ n = "Malformed" /\ Kind = INFO_TS /\ Declared = 0 /\ ev.r # "err"
      [] Prop = "C03" ->
            \/ n \in Awaits /\ ~moved /\ (~ROk \/ ev.ch)
            \/ n \in Awaits /\ ROk /\ ~LeftOk
            \/ Referred /\ ~RefOk
      [] Prop = "C04" ->
            \/ n \in Entities /\ (~ROk \/ ~ItemOk)
            \/ n \notin Entities /\ ev.r = "item"
      [] Prop = "C05" ->
            \/ n = "InfoSrc" /\ ~ROk
            \/ /\ ROk /\ known'
               /\ \/ ~SourceOk
                  \/ n \in {"AcceptHeader", "InfoSrc"} /\ obs'.ht
                  \/ n = "InfoSrc" /\ ~LocsOk
      [] Prop = "C06" -> \/ n = "InfoDst" /\ ~ROk
                         \/ ROk /\ known' /\ ~DestOk
      [] Prop = "C07" -> \/ n \in {"InfoReply", "InfoReplyIp4"} /\ ~ROk
                         \/ ROk /\ known' /\ n \notin {"AcceptHeader", "InfoSrc"} /\ ~LocsOk
      [] Prop = "C08" -> \/ n = "InfoTs" /\ ~ROk
                         \/ ROk /\ known' /\ ~TimeOk
      [] Prop = "C09" ->
            \/ /\ n = "AcceptHeader" /\ ROk
               /\ fresh.b = SubSeq(buf, 1, HeaderLen)
               /\ fresh.r = "none"
               /\ ~SameContext(obs', fresh.rcv)
            \/ Referred /\ ~RefOk
      [] Prop = "C10" ->
            \/ n \in {"AcceptHeader", "RejectHeader"} /\ ~(ROk /\ LeftOk)
            \/ n = "Pad" /\ decoded = "AcceptHeader" /\ ~(ROk /\ LeftOk)
      [] Prop = "C11" ->
            \/ n = "Malformed" /\ ~(ROk /\ LeftOk)
            \/ Referred /\ ~RefOk
      [] Prop = "C29" ->
            IF AtEof THEN ~ROk \/ ~LeftOk \/ (ROk /\ ev.r = "item" /\ ev.it.k # out'.k) \/ (Referred /\ ~RefOk)
            ELSE ev.r = "none" /\ (out'.r # "none" \/ (n \notin Awaits /\ ~Incomplete(buf', mode')))

      [] Prop = "C31" -> ~ROk \/ ~LeftOk \/ ~ItemOk \/ (known' /\ ~(SourceOk /\ DestOk /\ TimeOk))
                         \/ (known' /\ n \notin {"AcceptHeader", "InfoSrc"} /\ ~LocsOk)
      [] Prop = "C32" -> ev.r = "abort" \/ ev.mem > MemoryFor(ev.had)

(* the implementation went another way than the specification *)
Drifts(n) ==
    \/ ~ROk \/ ~LeftOk
    \/ Prop = "C07" /\ known' /\ ~LocsOk

(* Then there is still the reference receiver, for what it gave *)
ByReference == Prop \in {"C02", "C03", "C11"} /\ ref # <<>>

(* the input is of a kind the property does not speak about *)
OutOfScope(n) ==
    /\ Prop = "C03"
    /\ \/ n \in {"RejectHeader", "Malformed"}
       \/ n \in WellFormed /\ Last

Return(n) ==
    /\ obs' = IF ev.ch THEN ev.rcv ELSE obs
    /\ Take(n, IF OutOfScope(n) THEN "dead"
               ELSE IF Violates(n) THEN "bad"
               ELSE IF Prop = "C01" \/ ~Drifts(n) THEN "live"
               ELSE IF ByReference THEN "apart" ELSE "dead")
    /\ u' = IF ref # <<>> /\ ev.r # "none" THEN u + 1 ELSE u
    /\ moved' = FALSE /\ suspect' = FALSE

Silent(n) ==
    /\ l' = l
    /\ name' = n
    /\ hits' = Counted(n)
    /\ status' = IF OutOfScope(n) THEN "dead" ELSE status
    /\ moved' = TRUE
    /\ suspect' = (suspect \/ Skipping(n))
    /\ UNCHANGED <<tid, obs, u>>

Judge(n) ==
    /\ IF Stops(n) THEN Return(n) ELSE Silent(n)
    /\ decoded' = n
    /\ begun' = (begun \/ n = "AcceptHeader")
    /\ UNCHANGED <<fresh, ref>>

-----------------------------------------------------------------------------
Call == On("dec") \/ On("eof")

TAwaitHeader     == On("dec") /\ AwaitHeader     /\ Judge("AwaitHeader")
TAwaitSubmessage == On("dec") /\ AwaitSubmessage /\ Judge("AwaitSubmessage")
TEndClean        == On("eof") /\ EndClean        /\ Judge("EndClean")
TEndTruncated    == On("eof") /\ EndTruncated    /\ Judge("EndTruncated")
TAcceptHeader    == Call /\ AcceptHeader    /\ Judge("AcceptHeader")
TRejectHeader    == Call /\ RejectHeader    /\ Judge("RejectHeader")
TAckNack         == Call /\ AckNack         /\ Judge("AckNack")
TGap             == Call /\ Gap             /\ Judge("Gap")
THeartbeat       == Call /\ Heartbeat       /\ Judge("Heartbeat")
THeartbeatFrag   == Call /\ HeartbeatFrag   /\ Judge("HeartbeatFrag")
TNackFrag        == Call /\ NackFrag        /\ Judge("NackFrag")
TInfoSrc         == Call /\ InfoSrc         /\ Judge("InfoSrc")
TInfoDst         == Call /\ InfoDst         /\ Judge("InfoDst")
TInfoReply       == Call /\ InfoReply       /\ Judge("InfoReply")
TInfoReplyIp4    == Call /\ InfoReplyIp4    /\ Judge("InfoReplyIp4")
TInfoTs          == Call /\ InfoTs          /\ Judge("InfoTs")
TPad             == Call /\ Pad             /\ Judge("Pad")
TSkipData        == Call /\ SkipData        /\ Judge("SkipData")
TSkipUnknown     == Call /\ SkipUnknown     /\ Judge("SkipUnknown")
TMalformed       == Call /\ Malformed       /\ Judge("Malformed")

TFeed ==
    /\ On("feed") /\ Feed(ev.b)
    /\ Take("Feed", "live")
    /\ UNCHANGED <<obs, fresh, ref, u, decoded, moved, suspect, begun>>

(* a datagram arrives, between messages *)
TDatagram ==
    /\ On("dgram")
    /\ IF mode = "H" /\ buf = <<>> THEN Datagram(ev.b) ELSE UNCHANGED rvars
    /\ Take("Datagram", IF mode = "H" /\ buf = <<>> THEN "live" ELSE "dead")
    /\ UNCHANGED <<obs, fresh, ref, u, decoded, moved, suspect, begun>>

(* it has been decoded: the decoder gives nothing more *)
TDatagramDone ==
    /\ On("dend")
    /\ Take("DatagramDone", Verdict(Prop \in {"C29", "C01"} /\ ~ev.idle,
                                    mode # "H" \/ buf # <<>> \/ ~ev.idle))
    /\ UNCHANGED <<rvars, obs, fresh, ref, u, decoded, moved, suspect, begun>>

-----------------------------------------------------------------------------
(* The crate has made a header or submessage: is it the encoding of what   *)
(* was asked for?                                                          *)

KindOf(k) ==
    CASE k = "AckNack" -> ACKNACK [] k = "Gap" -> GAP [] k = "Heartbeat" -> HEARTBEAT
      [] k = "HeartbeatFrag" -> HEARTBEAT_FRAG [] k = "NackFrag" -> NACK_FRAG
      [] k = "InfoSource" -> INFO_SRC [] k = "InfoDestination" -> INFO_DST
      [] k = "InfoReply" -> INFO_REPLY [] k = "InfoReplyIp4" -> INFO_REPLY_IP4
      [] k = "InfoTs" -> INFO_TS [] k = "Pad" -> PAD

(* the offsets in a set that the numbers ns were inserted into *)
OffsetsOf(base, ns, signed) == {OffsetFrom(base, ns[i], signed) : i \in DOMAIN ns} \ {-1}

ContentOf(k, val, b, le) ==
    CASE k \in Entities ->
            Encodes(k, [i \in DOMAIN val |-> IF BitsAt(k, i) THEN OffsetsOf(val[i-1], val[i], k # "NackFrag")
                                             ELSE val[i]], le, b)
      [] k \in {"InfoSource", "InfoDestination"} -> b = Enc(k, val, le)
      [] k = "InfoReply" -> b = Flat([i \in DOMAIN val |-> EncField(Locs, val[i], le, <<0>>)])
      [] k \in {"InfoReplyIp4", "InfoTs"} -> b = Flat([i \in DOMAIN val |-> InOrder(val[i], le)])
      [] k = "Pad" -> b = Flat(val)

MadeOk ==
    IF ev.r # "ok" THEN FALSE
    ELSE CASE ev.k = "NewHeader" ->
                /\ Len(ev.b) = HeaderLen
                /\ LET h == Parse("Header", ev.b, FALSE).val
                   IN  h[1] = <<82, 84, 80, 83>> /\ h[2][1] <= SupportedMajor /\ h[4] = ev.val[1]
           [] ev.k = "Header" -> ev.b = Enc("Header", <<<<82, 84, 80, 83>>>> \o ev.val, FALSE)
           [] OTHER ->
                LET c == SubSeq(ev.b, SubHeaderLen + 1, Len(ev.b))
                IN  /\ Len(ev.b) >= SubHeaderLen
                    /\ ev.b = Framed(KindOf(ev.k), ev.fl, c, FALSE)
                    /\ ContentOf(ev.k, ev.val, c, ev.fl % 2 = 1)

TMake ==
    /\ On("make")
    /\ Take("Make", Verdict(Prop = "C31" /\ ~MadeOk, ev.r # "ok"))
    /\ UNCHANGED <<rvars, obs, fresh, ref, u, decoded, moved, suspect, begun>>

TFresh ==
    /\ On("fresh")
    /\ fresh' = ev
    /\ Take("Fresh", Verdict(Prop = "C01" /\ Crashed(ev.r), FALSE))
    /\ UNCHANGED <<rvars, obs, ref, u, decoded, moved, suspect, begun>>

(* A receiver has decoded many datagrams to their ends.  Its state is what
   Receiver says, the context: what it keeps does not grow with their number. *)
TKept ==
    /\ On("kept")
    /\ Take("Kept", Verdict(Prop = "C32" /\ (ev.r = "abort" \/ ev.mem > MemoryFor(ev.had)), FALSE))
    /\ UNCHANGED <<rvars, obs, fresh, ref, u, decoded, moved, suspect, begun>>

(* what a fresh receiver does with what comes next *)
TRef ==
    /\ On("ref")
    \* only comparable if the receiver starts a message here
    /\ ref' = IF ev.r = "ok" /\ mode = "H" /\ buf = <<>> /\ (Prop = "C11" => ~known)
              THEN ev.obs ELSE <<>>
    /\ u' = 0
    \* if the reference run itself fails, there is nothing to compare with
    /\ Take("Reference", Verdict(Prop = "C01" /\ ev.r # "ok", ev.r # "ok"))
    /\ begun' = FALSE
    /\ UNCHANGED <<rvars, obs, fresh, decoded, moved, suspect>>

(* The end of what was given to the reference receiver.  The last of its
   observations shows its context then. *)
TEnd ==
    /\ On("end")
    /\ Take("End", Verdict(/\ Prop \in {"C03", "C09", "C11", "C29"} /\ ref # <<>>
                           /\ \/ u # Len(ref) - 1
                              \/ begun /\ known /\ ~SameContext(obs, ref[Len(ref)].rcv),
                           FALSE))
    /\ ref' = <<>>
    /\ UNCHANGED <<rvars, obs, fresh, u, decoded, moved, suspect, begun>>

(* The specification was left behind, but what a reference receiver gave for
   the same bytes must still be what is given here. *)
TApart ==
    /\ status = "apart" /\ l <= Len(T.ev)
    /\ LET o == IF u < Len(ref) THEN ref[u + 1] ELSE [r |-> "nothing"]
           call == ev.e \in {"dec", "eof"}
           same == ev.r = o.r /\ (ev.r = "item" => ev.is = o.is)
       IN  /\ Take(IF call THEN "ApartCall" ELSE IF ev.e = "end" THEN "ApartEnd" ELSE "Apart",
                   IF call THEN (IF ev.r # "none" /\ ~same THEN "bad" ELSE "apart")
                   ELSE IF ev.e = "end" THEN (IF u # Len(ref) - 1 THEN "bad" ELSE "dead")
                   ELSE IF ev.e = "feed" THEN "apart" ELSE "dead")
           /\ u' = IF call THEN (IF ev.r # "none" THEN u + 1 ELSE u) ELSE u
    /\ UNCHANGED <<rvars, obs, fresh, ref, decoded, moved, suspect, begun>>

(* nothing more to check in this trace *)
Finished == Ended /\ UNCHANGED tvars

Next ==
    \/ TAwaitHeader \/ TAcceptHeader \/ TRejectHeader \/ TAwaitSubmessage
    \/ TAckNack \/ TGap \/ THeartbeat \/ THeartbeatFrag \/ TNackFrag
    \/ TInfoSrc \/ TInfoDst \/ TInfoReply \/ TInfoReplyIp4 \/ TInfoTs
    \/ TPad \/ TSkipData \/ TSkipUnknown \/ TMalformed
    \/ TEndClean \/ TEndTruncated
    \/ TFeed \/ TDatagram \/ TDatagramDone \/ TMake \/ TFresh \/ TKept \/ TRef \/ TEnd \/ TApart
    \/ Finished

Spec == Init /\ [][Next]_tvars

(* silent steps consume bytes, not events *)
RView == <<tid, l, Len(buf), status>>
=============================================================================
