----------------------------- MODULE NumberSet -----------------------------
(***************************************************************************)
(* A set of sequence or fragment numbers: a base and members within the    *)
(* window of 256 numbers that starts at the base.  Numbers are canonical   *)
(* byte tuples (Bytes).  A set read from the wire may have bits for        *)
(* numbers beyond the number range: they are kept as offsets (`bits`) but  *)
(* denote no member.                                                       *)
(***************************************************************************)
EXTENDS Wire

VARIABLES signed,    \* are the numbers signed?
          base,
          bits       \* offsets of the bits that are set

nvars == <<signed, base, bits>>

SetType(s) == IF s THEN "SequenceNumberSet_t" ELSE "FragmentNumberSet_t"

OffsetOf(v) == OffsetFrom(base, v, signed)

Acceptable(v) == OffsetOf(v) # -1 /\ OffsetOf(v) \notin bits

NumberSetInit(s, b) == signed = s /\ base = b /\ bits = {}

Accept(v) ==
    /\ Acceptable(v)
    /\ bits' = bits \cup {OffsetOf(v)}
    /\ UNCHANGED <<signed, base>>

Refuse(v) ==
    /\ ~Acceptable(v)
    /\ UNCHANGED nvars

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Ascending(S \ {m})

(* the members in order: ascending offsets, as far as they are in range *)
InOrderMembers ==
    SelectSeq([i \in 1..Cardinality(bits) |-> CheckedAddNat(base, Ascending(bits)[i], signed)],
              LAMBDA m : m # None)

(* The members in order, without sorting: what a sequence must be like *)
IsIteration(ms) ==
    LET S == Members(base, bits, signed)
    IN  /\ Len(ms) = Cardinality(S)
        /\ {ms[i] : i \in DOMAIN ms} = S
        /\ \A i \in 1..(Len(ms) - 1) : Lt(ms[i], ms[i + 1], signed)

(* to the wire and back again *)
Encoding(le) == Enc(SetType(signed), <<base, bits>>, le)
ThroughWire(le) ==
    LET p == Parse(SetType(signed), Encoding(le), le)
    IN  /\ p.ok
        /\ base' = p.val[1]
        /\ bits' = p.val[2]
        /\ UNCHANGED signed

(* a set from elsewhere *)
Readable(b, le) == Parse(SetType(signed), b, le).ok
ReadSet(b, le) ==
    /\ Readable(b, le)
    /\ LET p == Parse(SetType(signed), b, le)
       IN  base' = p.val[1] /\ bits' = p.val[2]
    /\ UNCHANGED signed
RejectSet(b, le) ==
    /\ ~Readable(b, le)
    /\ UNCHANGED nvars
=============================================================================
