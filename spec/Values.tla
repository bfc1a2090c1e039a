------------------------------- MODULE Values ------------------------------
(***************************************************************************)
(* What the conversions and operations on single values must give.  Most   *)
(* are stated as relations between argument and result, not as             *)
(* computations, so that they do not share mistakes with the code.         *)
(***************************************************************************)
EXTENDS Wire

-----------------------------------------------------------------------------
(* C20, C21: wire values *)

WholeParse(ty, b, le) ==
    LET p == Parse(ty, b, le)
    IN  IF p.ok /\ p.len = Len(b) THEN p ELSE Bad

(* what was written back, in the same (le) and the other byte order *)
RoundTrips(ty, b, le, w, o) ==
    LET p == WholeParse(ty, b, le)
    IN  /\ IF HasBits(ty) THEN Encodes(ty, p.val, le, w) ELSE w = b
        /\ Encodes(ty, p.val, ~le, o)

-----------------------------------------------------------------------------
(* C30: comparison.  p and q are values the parser gave for the same type. *)

OrderedTypes == {"EntityId_t", "GuidPrefix_t", "GUID_t", "InstanceHandle_t", "ProtocolId_t",
                 "ProtocolVersion_t", "SubmessageFlag", "SequenceNumber_t", "FragmentNumber_t",
                 "Count_t", "Time_t", "Duration_t", "CacheChange"}

(* is field i of the type a signed number? *)
SignedField(ty, i) ==
    \/ i = 1 /\ ty \in {"SequenceNumber_t", "Count_t", "Time_t", "Duration_t"}
    \/ i = 4 /\ ty = "CacheChange"

(* Numbers of a set beyond the number range are not members *)
SameField(ty, i, p, q) ==
    \/ p[i] = q[i]
    \/ /\ Layout(ty)[i].t = "bits" /\ i > 1 /\ p[i-1] = q[i-1]
       /\ LET signed == ty \notin {"FragmentNumberSet_t", "NackFrag"}
          IN  Members(p[i-1], p[i], signed) = Members(q[i-1], q[i], signed)

SameValue(ty, p, q) == \A i \in DOMAIN p : SameField(ty, i, p, q)

(* equal in every bit; else, if SameValue, equality is not specified *)
Identical(p, q) == p = q

(* field by field, the first difference decides *)
CmpValues(ty, p, q) ==
    LET D == {i \in DOMAIN p : p[i] # q[i]}
    IN  IF D = {} THEN 0 ELSE LET i == MinOf(D) IN Cmp(p[i], q[i], SignedField(ty, i))

-----------------------------------------------------------------------------
(* C22: parameters *)

Padding(v) == (4 - (Len(v) % 4)) % 4
Padded(v) == v \o Zeros(Padding(v))
TooLong(v) == Len(Padded(v)) > 65535

ParameterBytes(id, v, le) == Enc("Parameter", <<id, Padded(v)>>, le)

(* What reading a parameter from the front of b may give: [r, id, v, used].
   A length that is no multiple of four must not be sent; what is read for
   it, if anything, is the value with or without the bytes that pad it. *)
ReadsParameter(b, le, r, id, v, used) ==
    LET n == IF Len(b) < 4 THEN 0 ELSE ToNat(InOrder(At(b, 3, 2), le))
        pad == (4 - (n % 4)) % 4
        short == Len(b) < 4 + n
        whole == Len(b) >= 4 + n + pad
        Gives(k) == v = At(b, 5, k) /\ used \in {4 + n, 4 + n + pad} /\ used >= 4 + k
    IN  IF Len(b) < 4 \/ short THEN r = "err"
        ELSE \/ r = "err" /\ pad > 0
             \/ /\ r = "ok" /\ id = InOrder(At(b, 1, 2), le)
                /\ Gives(n) \/ (whole /\ Gives(n + pad))
                /\ used <= Len(b)

-----------------------------------------------------------------------------
(* C23: locators.  A socket address is [v, a, p]: version, address bytes,  *)
(* port as two bytes.                                                      *)

LongPort(p) == <<0, 0>> \o p
Wildcard == [port |-> <<0, 0>>]
IsWildcard(s) == IsZero(s.a) /\ s.p = <<0, 0>>

LocatorOf4(a, p) == KindUdp4 \o LongPort(p) \o Zeros(12) \o a
LocatorOf6(a, p) == KindUdp6 \o LongPort(p) \o a
KindOf(l) == At(l, 1, 4)

SocketToLocator(v, a, p, l) ==
    IF IsZero(a) THEN KindOf(l) = KindInvalid
    ELSE l = IF v = 4 THEN LocatorOf4(a, p) ELSE LocatorOf6(a, p)

(* l, in canonical bytes, converted to the socket address s *)
LocatorToSocket(l, s) ==
    LET kind == KindOf(l)
        port == At(l, 5, 4)
        addr == At(l, 9, 16)
    IN  IF kind \notin {KindUdp4, KindUdp6} \/ ~IsZero(At(port, 1, 2)) THEN IsWildcard(s)
        ELSE IF kind = KindUdp6
             THEN IsZero(addr) \/ s = [v |-> 6, a |-> addr, p |-> At(port, 3, 2)]
        ELSE \* what the first twelve bytes mean for IPv4 is not specified
             \/ ~IsZero(At(addr, 1, 12)) \/ IsZero(addr)
             \/ s = [v |-> 4, a |-> At(addr, 13, 4), p |-> At(port, 3, 2)]

(* a compact IPv4 locator: address and port as longs *)
CompactToSocket(c, s) ==
    LET a == At(c, 1, 4)
        p == At(c, 5, 4)
    IN  IF ~IsZero(At(p, 1, 2)) THEN IsWildcard(s)
        ELSE s = [v |-> 4, a |-> a, p |-> At(p, 3, 2)]

CompactToLocator(c, l) ==
    LET a == At(c, 1, 4)
        p == At(c, 5, 4)
    IN  IF IsZero(a) \/ ~IsZero(At(p, 1, 2)) THEN KindOf(l) = KindInvalid
        ELSE l = LocatorOf4(a, At(p, 3, 2))

-----------------------------------------------------------------------------
(* C24, C25: times and durations.  Seconds and fraction are four bytes,    *)
(* a fraction f is f / 2^32 s; nanoseconds are four bytes.                 *)

E9 == <<59, 154, 202, 0>>                    \* 10^9
TwoTo32 == <<0, 0, 0, 1, 0, 0, 0, 0>>

(* n nanoseconds are not less than f / 2^32 s, and by less than one nanosecond more:
   f * 10^9 <= n * 2^32 < f * 10^9 + 2^32 *)
NanosOfFraction(n, f) ==
    LET x == UMul(f, E9)
        y == n \o Zeros(4)
    IN  ULe(x, y) /\ ULt(y, WAdd(x, TwoTo32))

(* f / 2^32 s are not less than n nanoseconds, and by less than one more:
   n * 2^32 <= f * 10^9 < (n + 1) * 2^32 *)
FractionOfNanos(f, n) ==
    LET x == UMul(f, E9)
        y == n \o Zeros(4)
    IN  ULe(y, x) /\ ULt(x, WAdd(y, TwoTo32))

Invalid8 == <<255, 255, 255, 255, 255, 255, 255, 255>>
Infinite8 == <<127, 255, 255, 255, 255, 255, 255, 255>>

Fits31(s) == IsZero(At(s, 1, 4)) /\ s[5] < 128

(* system time s (seconds, eight bytes), n; before: earlier than the epoch *)
SystemToTime(before, s, n, t) ==
    IF (before /\ ~(IsZero(s) /\ IsZero(n))) \/ ~Fits31(s) THEN t = Invalid8
    ELSE At(t, 1, 4) = At(s, 5, 4) /\ NanosOfFraction(n, At(t, 5, 4))

(* r: [r, s, n] *)
TimeToSystem(t, r) ==
    IF Negative(t) THEN r.r = "err"       \* includes the invalid time
    ELSE /\ r.r = "ok"
         /\ r.s = Zeros(4) \o At(t, 1, 4)
         /\ FractionOfNanos(At(t, 5, 4), r.n)

DurationToProtocol(s, n, t, infinite, back) ==
    IF Fits31(s) THEN back.s = s /\ back.n = n
    ELSE t = Infinite8 /\ infinite

(* seconds and fraction-as-nanoseconds, whole seconds carried over *)
ProtocolToDuration(t, s, n) ==
    IF Negative(t) THEN IsZero(s) /\ IsZero(n)
    ELSE LET carry == WSub(s, Zeros(4) \o At(t, 1, 4))
         IN  /\ ULt(n, E9)
             /\ IsSmall(carry)
             /\ WAdd(UMul(At(carry, 5, 4), E9), Zeros(4) \o n) = Zeros(4) \o At(t, 5, 4)

-----------------------------------------------------------------------------
(* C27: checked arithmetic *)

Arithmetic(a, b, signed, add, sub, mul, div) ==
    /\ add = CheckedAdd(a, b, signed)
    /\ sub = CheckedSub(a, b, signed)
    /\ mul = CheckedMul(a, b, signed)
    /\ Len(div) \in {0, Len(a)}        \* <<-1>>: crashed
    /\ IsCheckedDiv(a, b, div, signed)

B01(b) == IF b THEN "true" ELSE "false"

(* ops: <, <=, ==, !=, >=, > *)
Ordering(a, b, signed, cmp, ops) ==
    LET c == Cmp(a, b, signed)
    IN  /\ cmp = c
        /\ ops = <<c < 0, c <= 0, c = 0, c # 0, c >= 0, c > 0>>

(* a number x converted to another width or sign: the same number, or nothing *)
InRange(x, n, signed) ==      \* does the signed eight-byte x fit n bytes?
    IF signed
    THEN LET ext == IF Negative(x) THEN 255 ELSE 0
         IN  /\ \A i \in 1..(8 - n) : x[i] = ext
             /\ (x[8 - n + 1] >= 128) = Negative(x)
    ELSE \A i \in 1..(8 - n) : x[i] = 0
Narrowed(x, n, signed) == IF InRange(x, n, signed) THEN At(x, 8 - n + 1, n) ELSE None
=============================================================================
