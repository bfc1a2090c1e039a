---------------------------- MODULE MC_NumberSet ---------------------------
(***************************************************************************)
(* Model checking of NumberSet.  The environment knows numbers as integer  *)
(* distances from the base, and what it tried; the invariants are stated   *)
(* over those integers, independently of the byte arithmetic.              *)
(***************************************************************************)
EXTENDS NumberSet, TLC, Json, IOUtils

CONSTANTS Depth, Distances

VARIABLES ty, room,       \* how many numbers there are above the base (capped)
          below,          \* and below it
          tried,          \* distances of the numbers inserted so far
          log             \* the schedule

mvars == <<nvars, ty, room, below, tried, log>>

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

(* bases near the extremes: <<base, numbers above, numbers below>> *)
Far == 100000
SnBases == {
    <<<<128, 0, 0, 0, 0, 0, 0, 0>>, Far, 0>>,
    <<<<128, 0, 0, 0, 0, 0, 0, 1>>, Far, 1>>,
    <<<<255, 255, 255, 255, 255, 255, 255, 254>>, Far, Far>>,
    <<<<0, 0, 0, 0, 255, 255, 255, 200>>, Far, Far>>,
    <<<<0, 0, 0, 0, 0, 0, 0, 1>>, Far, Far>>,
    <<<<127, 255, 255, 255, 255, 255, 255, 0>>, 255, Far>>,
    <<<<127, 255, 255, 255, 255, 255, 255, 223>>, 32, Far>>,
    <<<<127, 255, 255, 255, 255, 255, 255, 255>>, 0, Far>>}
FnBases == {
    <<<<0, 0, 0, 0>>, Far, 0>>,
    <<<<0, 0, 0, 1>>, Far, 1>>,
    <<<<127, 255, 255, 250>>, Far, Far>>,
    <<<<255, 255, 255, 0>>, 255, Far>>,
    <<<<255, 255, 255, 224>>, 31, Far>>,
    <<<<255, 255, 255, 255>>, 0, Far>>}

Number(d) == IF d >= 0 THEN WAdd(base, FromNat(d, Len(base)))
                       ELSE WSub(base, FromNat(-d, Len(base)))
Exists(d) == d <= room /\ -d <= below

Init ==
    /\ ty \in {"sn", "fn"}
    /\ \E b \in IF ty = "sn" THEN SnBases ELSE FnBases :
          NumberSetInit(ty = "sn", b[1]) /\ room = b[2] /\ below = b[3]
    /\ tried = {} /\ log = <<>>

Insert(d) ==
    /\ Exists(d)
    /\ Accept(Number(d)) \/ Refuse(Number(d))
    /\ tried' = tried \cup {d}
    /\ log' = Append(log, [op |-> "i", v |-> Number(d)])

Wired(le) ==
    /\ ThroughWire(le)
    /\ log' = Append(log, [op |-> IF le THEN "w1" ELSE "w0", v |-> <<>>])
    /\ UNCHANGED tried

Next ==
    /\ Len(log) < Depth
    /\ \/ \E d \in Distances : Insert(d)
       \/ \E le \in BOOLEAN : Wired(le)
    /\ UNCHANGED <<ty, room, below>>

Spec == Init /\ [][Next]_mvars

-----------------------------------------------------------------------------
(* C12: exactly the numbers tried in the window are members, in order *)
Expected == {d \in tried : 0 <= d /\ d <= 255}

Exactly == Members(base, bits, signed) = {Number(d) : d \in Expected}

Ordered == LET s == Ascending(Expected)
           IN  InOrderMembers = [i \in DOMAIN s |-> Number(s[i])]

IterationDetermined == IsIteration(InOrderMembers)

(* C13: the wire changes nothing *)
WireKeeps == [][ \A le \in BOOLEAN : Wired(le) => bits' = bits /\ base' = base ]_mvars

(* an insertion tells whether it changed the set *)
AcceptChanges == [][ \A d \in Distances :
                       (log' = Append(log, [op |-> "i", v |-> Number(d)]))
                         => (Acceptable(Number(d)) <=> bits' # bits) ]_mvars

QuickDistances == {-1, 0, 1, 31, 32, 33, 255, 256}
DeepDistances == QuickDistances \cup {2, 254, -2}
Schedule == [ty |-> ty, base |-> base, ops |-> log]
Emitted == Emit /\ Len(log) = Depth => PrintT("SCHEDULE " \o ToJson(Schedule))
=============================================================================
