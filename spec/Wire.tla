-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The wire format: one layout per type, a parser and an encoder driven by *)
(* the layouts.  Nothing here is taken over from the implementation's      *)
(* readers and writers; the layouts are those of the DDSI-RTPS documents,  *)
(* with the deviations the code base has pinned in its own tests           *)
(* (least-significant-bit-first bitmaps, INFO_SRC without the unused long) *)
(* selectable by `Std`.                                                    *)
(*                                                                         *)
(* Kinds of field, and the value the parser gives them:                    *)
(*   raw n    n bytes, kept as they are whatever the byte order            *)
(*   num n    a number of n bytes, canonical (see Bytes)                   *)
(*   sn       a sequence number: signed high long, unsigned low long       *)
(*   tag S    a long that must be in S                                     *)
(*   flaglen  a short whose byte order is that of the preceding flag byte  *)
(*   bits     a number of bits and the longs holding them: set of offsets  *)
(*   locs     a counted list of locators                                   *)
(*   param    parameter value: a short length and that many bytes          *)
(***************************************************************************)
EXTENDS Bytes

CONSTANT Std      \* TRUE: bitmaps and INFO_SRC as in the RTPS standard

Raw(n)  == [t |-> "raw",  n |-> n]
Num(n)  == [t |-> "num",  n |-> n]
Sn      == [t |-> "sn",   n |-> 8]
Tag(S)  == [t |-> "tag",  n |-> 4, s |-> S]
FlagLen == [t |-> "flaglen", n |-> 2]
Bits    == [t |-> "bits", n |-> 4]
Locs    == [t |-> "locs", n |-> 4]
Param   == [t |-> "param", n |-> 2]

KindInvalid == <<255, 255, 255, 255>>
KindUdp4    == <<0, 0, 0, 1>>
KindUdp6    == <<0, 0, 0, 2>>
LocatorKinds == {KindInvalid, <<0, 0, 0, 0>>, KindUdp4, KindUdp6}
TopicKinds   == {<<0, 0, 0, 1>>, <<0, 0, 0, 2>>}

LocatorLayout == <<Tag(LocatorKinds), Num(4), Raw(16)>>

Layout(ty) ==
    CASE ty = "EntityId_t"        -> <<Raw(4)>>
      [] ty = "GuidPrefix_t"      -> <<Raw(12)>>
      [] ty = "GUID_t"            -> <<Raw(12), Raw(4)>>
      [] ty = "InstanceHandle_t"  -> <<Raw(16)>>
      [] ty = "ProtocolId_t"      -> <<Raw(4)>>
      [] ty = "ProtocolVersion_t" -> <<Raw(2)>>
      [] ty = "VendorId_t"        -> <<Raw(2)>>
      [] ty = "SubmessageFlag"    -> <<Raw(1)>>
      [] ty = "SubmessageKind"    -> <<Raw(1)>>
      [] ty = "SubmessageHeader"  -> <<Raw(1), Raw(1), FlagLen>>
      [] ty = "Header"            -> <<Raw(4), Raw(2), Raw(2), Raw(12)>>
      [] ty = "SequenceNumber_t"  -> <<Sn>>
      [] ty = "FragmentNumber_t"  -> <<Num(4)>>
      [] ty = "Count_t"           -> <<Num(4)>>
      [] ty = "Time_t"            -> <<Num(4), Num(4)>>
      [] ty = "Duration_t"        -> <<Num(4), Num(4)>>
      [] ty = "ReliabilityKind_t" -> <<Num(4)>>
      [] ty = "TopicKind_t"       -> <<Tag(TopicKinds)>>
      [] ty = "LocatorKind_t"     -> <<Tag(LocatorKinds)>>
      [] ty = "Locator_t"         -> LocatorLayout
      [] ty = "LocatorList_t"     -> <<Locs>>
      [] ty = "LocatorUDPv4_t"    -> <<Num(4), Num(4)>>
      [] ty = "ParameterId"       -> <<Num(2)>>
      [] ty = "Parameter"         -> <<Num(2), Param>>
      [] ty = "BitSetRef"         -> <<Bits>>
      [] ty = "SequenceNumberSet_t" -> <<Sn, Bits>>
      [] ty = "FragmentNumberSet_t" -> <<Num(4), Bits>>
      [] ty = "AckNack"           -> <<Raw(4), Raw(4), Sn, Bits, Num(4)>>
      [] ty = "Gap"               -> <<Raw(4), Raw(4), Sn, Sn, Bits>>
      [] ty = "Heartbeat"         -> <<Raw(4), Raw(4), Sn, Sn, Num(4)>>
      [] ty = "HeartbeatFrag"     -> <<Raw(4), Raw(4), Sn, Num(4), Num(4)>>
      [] ty = "NackFrag"          -> <<Raw(4), Raw(4), Sn, Num(4), Bits, Num(4)>>
      [] ty = "InfoSource"        -> IF Std THEN <<Raw(4), Raw(2), Raw(2), Raw(12)>>
                                            ELSE <<Raw(2), Raw(2), Raw(12)>>
      [] ty = "InfoDestination"   -> <<Raw(12)>>
      \* not on the wire in this form: a change (kind, writer, instance, number), and what
      \* the receiver hands out, with its flags
      [] ty = "CacheChange"       -> <<Raw(1), Raw(16), Raw(16), Sn>>
      [] ty = "ItemAckNack"       -> <<Raw(1), Raw(4), Raw(4), Sn, Bits, Num(4)>>
      [] ty = "ItemHeartbeat"     -> <<Raw(1), Raw(4), Raw(4), Sn, Sn, Num(4)>>

Types == {"EntityId_t", "GuidPrefix_t", "GUID_t", "InstanceHandle_t", "ProtocolId_t",
          "ProtocolVersion_t", "VendorId_t", "SubmessageFlag", "SubmessageKind",
          "SubmessageHeader", "Header", "SequenceNumber_t", "FragmentNumber_t", "Count_t",
          "Time_t", "Duration_t", "ReliabilityKind_t", "TopicKind_t", "LocatorKind_t",
          "Locator_t", "LocatorList_t", "LocatorUDPv4_t", "ParameterId", "Parameter",
          "BitSetRef", "SequenceNumberSet_t", "FragmentNumberSet_t", "AckNack", "Gap",
          "Heartbeat", "HeartbeatFrag", "NackFrag", "InfoSource", "InfoDestination"}

-----------------------------------------------------------------------------
(* Parsing.  A result is [ok, val, len]: len bytes starting at pos were used. *)

MaxBits == 256

Bad == [ok |-> FALSE, val |-> <<>>, len |-> 0]

(* `n` bytes at position pos, if they are there *)
Has(b, pos, n) == pos + n - 1 <= Len(b)
At(b, pos, n) == SubSeq(b, pos, pos + n - 1)

(* offsets of the bits that are set, below n, in the words starting at pos *)
BitOffsets(b, pos, n, le) ==
    {i \in 0..(n - 1) :
        LET w == InOrder(At(b, pos + 4 * (i \div 32), 4), le)
            k == IF Std THEN 31 - (i % 32) ELSE i % 32
        IN  Bit(w[4 - (k \div 8)], k % 8) = 1}

RECURSIVE ParseLocators(_, _, _, _, _)
ParseLocators(b, pos, n, le, acc) ==
    IF n = 0 THEN [ok |-> TRUE, val |-> acc, len |-> 24 * Len(acc)]
    ELSE IF ~Has(b, pos, 24) THEN Bad
    ELSE LET kind == InOrder(At(b, pos, 4), le)
             port == InOrder(At(b, pos + 4, 4), le)
         IN  IF kind \notin LocatorKinds THEN Bad
             ELSE ParseLocators(b, pos + 24, n - 1, le,
                                Append(acc, kind \o port \o At(b, pos + 8, 16)))

(* prev is the value of the preceding field *)
ParseField(f, b, pos, le, prev) ==
    IF ~Has(b, pos, f.n) THEN Bad
    ELSE LET x == At(b, pos, f.n)
             ok(v, n) == [ok |-> TRUE, val |-> v, len |-> n]
         IN CASE f.t = "raw" -> ok(x, f.n)
              [] f.t = "num" -> ok(InOrder(x, le), f.n)
              [] f.t = "sn"  -> ok(InOrder(At(x, 1, 4), le) \o InOrder(At(x, 5, 4), le), 8)
              [] f.t = "tag" -> IF InOrder(x, le) \in f.s THEN ok(InOrder(x, le), 4) ELSE Bad
              [] f.t = "flaglen" -> ok(InOrder(x, prev[1] % 2 = 1), 2)
              [] f.t = "bits" ->
                    LET c == InOrder(x, le)
                        n == ToNat(c)
                        words == (n + 31) \div 32
                    IN  IF ~IsSmall(c) \/ n > MaxBits \/ ~Has(b, pos + 4, 4 * words) THEN Bad
                        ELSE ok(BitOffsets(b, pos + 4, n, le), 4 + 4 * words)
              [] f.t = "locs" ->
                    LET c == InOrder(x, le)
                    IN  IF ~IsSmall(c) \/ ~Has(b, pos + 4, 24 * ToNat(c)) THEN Bad
                        ELSE LET r == ParseLocators(b, pos + 4, ToNat(c), le, <<>>)
                             IN  IF r.ok THEN ok(r.val, 4 + r.len) ELSE Bad
              [] f.t = "param" ->
                    LET n == ToNat(InOrder(x, le))
                    IN  IF ~Has(b, pos + 2, n) THEN Bad ELSE ok(At(b, pos + 2, n), 2 + n)

RECURSIVE ParseFields(_, _, _, _, _)
ParseFields(fs, b, pos, le, acc) ==
    IF fs = <<>> THEN [ok |-> TRUE, val |-> acc, len |-> pos - 1]
    ELSE LET r == ParseField(Head(fs), b, pos, le, IF acc = <<>> THEN <<0>> ELSE acc[Len(acc)])
         IN  IF r.ok THEN ParseFields(Tail(fs), b, pos + r.len, le, Append(acc, r.val)) ELSE Bad

Parse(ty, b, le) == ParseFields(Layout(ty), b, 1, le, <<>>)

-----------------------------------------------------------------------------
(* Encoding *)

SetBits(o, lo, hi) ==     \* the byte whose bits lo..hi-1 (lowest first) are in o
    LET RECURSIVE go(_, _, _)
        go(i, w, acc) == IF i = hi THEN acc
                         ELSE go(i + 1, w * 2, IF i \in o THEN acc + w ELSE acc)
    IN  go(lo, 1, 0)

MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* the word i of a bitmap, canonical *)
Word(o, i) ==
    LET oo == IF Std THEN {32 * i + 31 - (k - 32 * i) : k \in {k \in o : k \div 32 = i}} ELSE o
    IN  [j \in 1..4 |-> SetBits(oo, 32 * i + 8 * (4 - j), 32 * i + 8 * (4 - j) + 8)]

(* a bitmap of n declared bits *)
EncBits(o, n, le) ==
    InOrder(FromNat(n, 4), le)
      \o Flat([i \in 1..((n + 31) \div 32) |-> InOrder(Word(o, i - 1), le)])

EncField(f, v, le, prev) ==
    CASE f.t = "raw" -> v
      [] f.t = "num" -> InOrder(v, le)
      [] f.t = "tag" -> InOrder(v, le)
      [] f.t = "sn"  -> InOrder(At(v, 1, 4), le) \o InOrder(At(v, 5, 4), le)
      [] f.t = "flaglen" -> InOrder(v, prev[1] % 2 = 1)
      [] f.t = "bits" -> EncBits(v, IF v = {} THEN 0 ELSE 32 * (MaxOf(v) \div 32 + 1), le)
      [] f.t = "locs" ->
            InOrder(FromNat(Len(v), 4), le)
              \o Flat([i \in DOMAIN v |->
                         InOrder(At(v[i], 1, 4), le) \o InOrder(At(v[i], 5, 4), le) \o At(v[i], 9, 16)])
      [] f.t = "param" -> InOrder(FromNat(Len(v), 2), le) \o v

(* val may hold the first fields only *)
Enc(ty, val, le) ==
    LET fs == Layout(ty)
    IN  Flat([i \in DOMAIN val |-> EncField(fs[i], val[i], le, IF i = 1 THEN <<0>> ELSE val[i-1])])

HasBits(ty) == \E i \in DOMAIN Layout(ty) : Layout(ty)[i].t = "bits"

(* A type without bitmaps has one encoding; bitmaps may have trailing zero words *)
Encodes(ty, val, le, b) ==
    IF HasBits(ty)
    THEN LET r == Parse(ty, b, le) IN r.ok /\ r.val = val /\ r.len = Len(b)
    ELSE b = Enc(ty, val, le)

-----------------------------------------------------------------------------
(* Number sets *)

(* the numbers at the given offsets from base, as far as they are in range *)
Members(base, offsets, signed) ==
    {m \in {CheckedAddNat(base, o, signed) : o \in offsets} : m # None}

(* the offset of v from the base if it is in the window of 256 numbers, else -1 *)
WindowSize == 256
OffsetFrom(base, v, signed) ==
    LET d == CheckedSub(v, base, signed)
    IN  IF d = None \/ (signed /\ Negative(d)) \/ ~IsSmall(d) THEN -1
        ELSE IF ToNat(d) < WindowSize THEN ToNat(d) ELSE -1

-----------------------------------------------------------------------------
(* A submessage: kind, flags, length in the byte order of the flags, content *)
Framed(kind, flags, content, open) ==
    LET n == IF open THEN 0 ELSE Len(content)
    IN  <<kind, flags>> \o InOrder(FromNat(n, 2), flags % 2 = 1) \o content

=============================================================================
