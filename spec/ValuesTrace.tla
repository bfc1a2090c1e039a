---------------------------- MODULE ValuesTrace ----------------------------
(***************************************************************************)
(* Checks recorded conversions and operations of the real value types      *)
(* against Values.  State: the flags byte (C26) and the bytes of a buffer   *)
(* that have not been read yet (C33).                                      *)
(***************************************************************************)
EXTENDS Values, TraceBase

VARIABLES flags,     \* the set of flags that are set
          rest       \* the bytes not read yet

tvars == <<basevars, flags, rest>>

Init == BaseInit /\ flags = {} /\ rest = <<>>

Good(p, n, ok) ==
    /\ Take(n, Verdict(Prop = p /\ ~ok, FALSE))
    /\ UNCHANGED <<flags, rest>>

-----------------------------------------------------------------------------
RoundTripOk(e) == e.r = "ok" /\ RoundTrips(e.ty, e.b, e.le, e.w, e.o)

TRoundTrip ==
    /\ On("rt") /\ WholeParse(ev.ty, ev.b, ev.le).ok
    /\ Good("C20", "RoundTrip", RoundTripOk(ev))

(* bytes left over: neither property says anything *)
TLeftOver ==
    /\ On("rt") /\ ~WholeParse(ev.ty, ev.b, ev.le).ok /\ Parse(ev.ty, ev.b, ev.le).ok
    /\ Good("", "LeftOver", TRUE)

TUndecodable ==
    /\ On("rt") /\ ~Parse(ev.ty, ev.b, ev.le).ok
    /\ Good("C21", "Undecodable", ev.r = "err")

-----------------------------------------------------------------------------
(* two values of one type, perhaps read in different byte orders *)
Compared ==
    LET p == Parse(ev.ty, ev.a, ev.le).val
        q == Parse(ev.ty, ev.b, ev.le2).val
        c == CmpValues(ev.ty, p, q)
        S(ok) == ev.eq = ok /\ ev.qe = ok /\ ev.ne = ~ok
    IN  /\ ev.r = "ok"
        /\ ev.self
        /\ IF SameValue(ev.ty, p, q) THEN Identical(p, q) => S(TRUE) ELSE S(FALSE)
        /\ ev.eq => ev.hash
        /\ ev.ty \in OrderedTypes =>
              /\ ev.cmp = c /\ ev.rev = 0 - c
              /\ ev.ops = <<c < 0, c <= 0, c = 0, c # 0, c >= 0, c > 0>>
              /\ ev.par

TCompare ==
    /\ On("cmp") /\ ev.r # "unread"
    /\ Good("C30", "Compare", Compared)

(* nothing to compare: reading is not this property's business *)
TUnread == On("cmp") /\ ev.r = "unread" /\ Good("", "Unread", TRUE)

-----------------------------------------------------------------------------
(* values read one after another: each takes its own bytes *)
TFill ==
    /\ On("fill")
    /\ rest' = ev.b
    /\ Take("Fill", "live")
    /\ UNCHANGED flags

TTake ==
    /\ On("take")
    /\ LET p == Parse(ev.ty, rest, ev.le)
       IN  /\ rest' = IF p.ok THEN SubSeq(rest, p.len + 1, Len(rest)) ELSE <<>>
           /\ Take(IF p.ok THEN "TakeValue" ELSE "TakeNothing",
                   Verdict(/\ Prop = "C33"
                           /\ ~ IF p.ok
                                THEN /\ ev.r = "ok" /\ ev.n = p.len
                                     /\ Encodes(ev.ty, p.val, ev.le, ev.w)
                                     /\ ev.same
                                     /\ ev.sr = "ok" /\ ev.sn = p.len /\ ev.sw = ev.w
                                ELSE ev.r = "err" /\ ev.sr = "err",
                           p.ok /\ (ev.r # "ok" \/ ev.n # p.len)))
    /\ UNCHANGED flags

-----------------------------------------------------------------------------
TParameter ==
    /\ On("param")
    /\ Good("C22", "Parameter",
            IF TooLong(ev.v) THEN ev.r = "err"
            ELSE /\ ev.r = "ok"
                 /\ ev.b = ParameterBytes(ev.id, ev.v, ev.le)
                 /\ ev.d = "ok"
                 /\ ev.rid = ev.id
                 /\ ev.rv = Padded(ev.v)
                 /\ ev.used = Len(ev.b))

TReceivedParameter ==
    /\ On("praw")
    /\ Good("C22", "ReceivedParameter", ReadsParameter(ev.b, ev.le, ev.r, ev.rid, ev.rv, ev.used))

-----------------------------------------------------------------------------
Socket4Ok(e) ==
    /\ e.r = "ok"
    /\ SocketToLocator(4, e.a, e.p, e.loc)
    /\ IF IsZero(e.a) THEN IsWildcard(e.back)
       ELSE e.back = [v |-> 4, a |-> e.a, p |-> e.p]
    /\ IsZero(e.a) \/ e.c = e.a \o LongPort(e.p)
    /\ IsZero(e.a) \/ e.cback = [v |-> 4, a |-> e.a, p |-> e.p]
    /\ SocketToLocator(4, e.a, e.p, e.cl)

Socket6Ok(e) ==
    /\ e.r = "ok"
    /\ SocketToLocator(6, e.a, e.p, e.loc)
    /\ IF IsZero(e.a) THEN IsWildcard(e.back)
       ELSE e.back = [v |-> 6, a |-> e.a, p |-> e.p]

LocatorOk(e) == e.r = "ok" /\ LocatorToSocket(e.b, e.back)

CompactOk(e) ==
    /\ e.r = "ok"
    /\ IsZero(At(e.b, 1, 4)) \/ CompactToSocket(e.b, e.back)
    /\ CompactToLocator(e.b, e.loc)

TSocket4 == On("sa4") /\ Good("C23", "Socket4", Socket4Ok(ev))
TSocket6 == On("sa6") /\ Good("C23", "Socket6", Socket6Ok(ev))
TLocator == On("loc") /\ Good("C23", "Locator", LocatorOk(ev))
TCompact == On("cloc") /\ Good("C23", "Compact", CompactOk(ev))

-----------------------------------------------------------------------------
(* the platform has no such system time *)
TNoSystemTime == On("sys") /\ ev.r = "none" /\ Good("", "NoSystemTime", TRUE)

TSystemTime ==
    /\ On("sys") /\ ev.r # "none"
    /\ Good("C24", "SystemTime",
            /\ ev.r = "ok"
            /\ SystemToTime(ev.neg, ev.s, ev.n, ev.t)
            /\ TimeToSystem(ev.t, ev.back))

TTime ==
    /\ On("time")
    /\ Good("C24", "Time", ev.r = "ok" /\ TimeToSystem(ev.b, ev.sys))

DurationOk(e) == e.r = "ok" /\ DurationToProtocol(e.s, e.n, e.t, e.inf, e.back)
TDuration == On("dur") /\ Good("C25", "Duration", DurationOk(ev))

ProtocolDurationOk(e) == e.r = "ok" /\ ProtocolToDuration(e.b, e.s, e.n)
TProtocolDuration == On("pdur") /\ Good("C25", "ProtocolDuration", ProtocolDurationOk(ev))

-----------------------------------------------------------------------------
(* flags: a set of bits *)
FlagEvent(n, ok) ==
    /\ Take(n, Verdict(Prop = "C26" /\ ~ok, FALSE))
    /\ UNCHANGED rest

TFlags ==
    /\ On("fl")
    /\ flags' = BitsOf(ev.m)
    /\ FlagEvent("Flags", TRUE)

TSetFlags ==
    /\ On("fs")
    /\ flags' = flags \cup BitsOf(ev.m)
    /\ FlagEvent("SetFlags", ev.r = "ok" /\ BitsOf(ev.f) = flags')

TClearFlags ==
    /\ On("fc")
    /\ flags' = flags \ BitsOf(ev.m)
    /\ FlagEvent("ClearFlags", ev.r = "ok" /\ BitsOf(ev.f) = flags')

TTestFlags ==
    /\ On("ft")
    /\ FlagEvent("TestFlags",
            ev.r = "ok" /\ BitsOf(ev.f) = flags /\ (ev.set <=> flags \cap BitsOf(ev.m) # {}))
    /\ UNCHANGED flags

(* all flags a set operation can start from, with one mask *)
TAllFlags ==
    /\ On("fa")
    /\ FlagEvent("AllFlags",
            LET m == BitsOf(ev.m)
            IN  \A f \in 0..255 :
                    LET b == BitsOf(f)
                    IN  /\ ev.set[f + 1] \in 0..255 /\ BitsOf(ev.set[f + 1]) = b \cup m
                        /\ ev.clear[f + 1] \in 0..255 /\ BitsOf(ev.clear[f + 1]) = b \ m
                        /\ ev.test[f + 1] = IF b \cap m # {} THEN 1 ELSE 0
                        /\ ev.kept[f + 1] = f)
    /\ UNCHANGED flags

TByteOrder ==
    /\ On("fe")
    /\ FlagEvent("ByteOrder",
            ev.r = "ok" /\ BitsOf(ev.f) = flags /\ (ev.le <=> 0 \in flags))
    /\ UNCHANGED flags

-----------------------------------------------------------------------------
SnType == ev.ty = "sn"

TArithmetic ==
    /\ On("ar")
    /\ Good("C27", "Arithmetic",
            /\ "r" \notin DOMAIN ev
            /\ Arithmetic(ev.a, ev.b, SnType, ev.add, ev.sub, ev.mul, ev.div)
            /\ Ordering(ev.a, ev.b, SnType, ev.cmp, ev.ops)
            /\ ev.min = (Cmp(ev.a, ev.b, SnType) <= 0)
            /\ ev.par)

(* x is a signed number of eight bytes; the number of type ty made from it *)
ConversionOk(e) ==
    LET x == e.x
        sn == e.ty = "sn"
        low == At(x, 5, 4)                    \* as a fragment number
        wide == IF sn THEN x ELSE Zeros(4) \o low
    IN  /\ "r" \notin DOMAIN e
        /\ e.id = IF sn THEN x ELSE low
        /\ e.ty # "count" =>
            /\ e.fromi = IF sn THEN x ELSE Narrowed(x, 4, FALSE)
            \* x as an unsigned number
            /\ e.fromu = IF sn THEN (IF Negative(x) THEN None ELSE x)
                          ELSE IF InRange(x, 4, FALSE) THEN low ELSE None
            /\ e.toi = wide
            /\ e.tou = IF Negative(wide) THEN None ELSE wide
            /\ e.tou32 = Narrowed(wide, 4, FALSE)
            /\ e.toi32 = Narrowed(wide, 4, TRUE)
            /\ e.tou8 = Narrowed(wide, 1, FALSE)

TConversion == On("conv") /\ Good("C27", "Conversion", ConversionOk(ev))

-----------------------------------------------------------------------------
(* Every value of two bytes: ev.runs are the events of x = 0..65535, those
   from lo to hi alike but for the bytes of x, which -1001 (the high one)
   and -1002 (the low one) stand for. *)
S(t, x) == [i \in DOMAIN t |-> IF t[i] = -1001 THEN x \div 256
                                ELSE IF t[i] = -1002 THEN x % 256 ELSE t[i]]
SSocket(t, x) == [t EXCEPT !.a = S(@, x), !.p = S(@, x)]
(* an option: bytes, or the empty sequence *)
Event(t, x) ==
    IF t.e # "rt" /\ t.e # "conv" /\ t.r # "ok" THEN t
    ELSE CASE t.e = "sa4" ->
                [t EXCEPT !.a = S(@, x), !.p = S(@, x), !.loc = S(@, x), !.c = S(@, x), !.cl = S(@, x),
                          !.back = SSocket(@, x), !.cback = SSocket(@, x)]
           [] t.e = "sa6" ->
                [t EXCEPT !.a = S(@, x), !.p = S(@, x), !.loc = S(@, x), !.back = SSocket(@, x)]
           [] t.e = "loc" -> [t EXCEPT !.b = S(@, x), !.back = SSocket(@, x)]
           [] t.e = "cloc" -> [t EXCEPT !.b = S(@, x), !.loc = S(@, x), !.back = SSocket(@, x)]
           [] t.e = "pdur" -> [t EXCEPT !.b = S(@, x), !.s = S(@, x), !.n = S(@, x)]
           [] t.e = "rt" ->
                IF t.r = "ok" THEN [t EXCEPT !.b = S(@, x), !.w = S(@, x), !.o = S(@, x)]
                ELSE [t EXCEPT !.b = S(@, x)]
           [] OTHER ->
                IF "r" \in DOMAIN t THEN t
                ELSE [n \in DOMAIN t |-> IF n \in {"e", "ty"} THEN t[n] ELSE S(t[n], x)]

EventOk(e) ==
    CASE e.e = "sa4" -> Socket4Ok(e)
      [] e.e = "sa6" -> Socket6Ok(e)
      [] e.e = "loc" -> LocatorOk(e)
      [] e.e = "cloc" -> CompactOk(e)
      [] e.e = "pdur" -> ProtocolDurationOk(e)
      [] e.e = "rt" -> IF Prop = "C20" THEN WholeParse(e.ty, e.b, e.le).ok => RoundTripOk(e)
                       ELSE ~Parse(e.ty, e.b, e.le).ok => e.r = "err"
      [] OTHER -> ConversionOk(e)

(* In a run all events are alike, so a lone exception makes a run of its own;
   where judging is expensive, it is done at both ends of a run and at a
   sample of the values between. *)
Composite == {"Locator_t", "LocatorList_t", "Parameter", "BitSetRef", "SequenceNumberSet_t", "FragmentNumberSet_t", "AckNack",
              "Gap", "Heartbeat", "HeartbeatFrag", "NackFrag", "InfoSource", "Header"}
Judged(run) ==
    IF run.t.e = "rt" /\ run.t.ty \in Composite
    THEN {x \in run.lo..run.hi : x \in {run.lo, run.hi} \/ x < 40 \/ x % 1031 = 0 \/ x \in {255, 256, 257, 258, 512}}
    ELSE run.lo..run.hi

RunsOk ==
    \A i \in DOMAIN ev.runs :
        LET run == ev.runs[i]
        IN  \A x \in Judged(run) : EventOk(Event(run.t, x))

PropOf == [sa4 |-> "C23", sa6 |-> "C23", loc |-> "C23", cloc |-> "C23", pdur |-> "C25",
           rt |-> IF Prop = "C21" THEN "C21" ELSE "C20", conv |-> "C27"]

TAll == On("all") /\ Good(PropOf[ev.runs[1].t.e], "All", RunsOk)

-----------------------------------------------------------------------------
Finished == Ended /\ UNCHANGED tvars

Next ==
    \/ TCompare \/ TUnread \/ TFill \/ TTake
    \/ TRoundTrip \/ TLeftOver \/ TUndecodable \/ TParameter \/ TReceivedParameter
    \/ TSocket4 \/ TSocket6 \/ TLocator \/ TCompact
    \/ TNoSystemTime \/ TSystemTime \/ TTime \/ TDuration \/ TProtocolDuration
    \/ TFlags \/ TSetFlags \/ TClearFlags \/ TTestFlags \/ TByteOrder
    \/ TArithmetic \/ TConversion
    \/ TAll \/ TAllFlags
    \/ Finished

Spec == Init /\ [][Next]_tvars
=============================================================================
