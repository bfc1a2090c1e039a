----------------------------- MODULE ChunkProof ----------------------------
(***************************************************************************)
(* A decoder that takes a unit (the message header, a submessage) only     *)
(* when all of it has arrived does not depend on how the bytes are cut     *)
(* into chunks (C03, and the frame of C02 and C29): for messages of any    *)
(* length, any contents and any chunks, proved with TLAPS.                 *)
(*                                                                         *)
(* Contents are abstract: Size(p, c) is the size of the unit at position p *)
(* for a decoder in state c (what is expected, the context, what has been  *)
(* given so far), After(p, c) the state after it.  Receiver is an instance *)
(* as long as no unit is open-ended (its size depends on what is at hand)  *)
(* or malformed: AwaitHeader and AwaitSubmessage are "nothing to take".    *)
(***************************************************************************)
EXTENDS Integers, NaturalsInduction, TLAPS

CONSTANTS States, Start, Size(_, _), After(_, _)

ASSUME Assumptions ==
    /\ Start \in States
    /\ \A p \in Nat, c \in States : Size(p, c) \in Nat \ {0} /\ After(p, c) \in States

VARIABLES arrived,   \* bytes that have arrived
          pos,       \* bytes that have been decoded
          state
vars == <<arrived, pos, state>>

Init == arrived = 0 /\ pos = 0 /\ state = Start

Feed(n) == /\ arrived' = arrived + n
           /\ UNCHANGED <<pos, state>>

CanTake == pos + Size(pos, state) <= arrived
Take == /\ CanTake
        /\ pos' = pos + Size(pos, state)
        /\ state' = After(pos, state)
        /\ UNCHANGED arrived

Next == Take \/ \E n \in Nat : Feed(n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The k-th unit of the whole, without any chunks: where it starts, and the *)
(* state before it.                                                         *)
Whole[k \in Nat] ==
    IF k = 0 THEN [at |-> 0, st |-> Start]
    ELSE [at |-> Whole[k-1].at + Size(Whole[k-1].at, Whole[k-1].st),
          st |-> After(Whole[k-1].at, Whole[k-1].st)]

Step(w) == [at |-> w.at + Size(w.at, w.st), st |-> After(w.at, w.st)]

THEOREM WholeDef ==
    /\ Whole[0] = [at |-> 0, st |-> Start]
    /\ \A k \in Nat : Whole[k+1] = Step(Whole[k])
<1> DEFINE D(v, n) == Step(v)
           W0 == [at |-> 0, st |-> Start]
<1>1. NatInductiveDefHypothesis(Whole, W0, D)
  BY DEF NatInductiveDefHypothesis, Whole, Step
<1>2. NatInductiveDefConclusion(Whole, W0, D)
  <2> HIDE DEF D, W0
  <2> QED BY <1>1, NatInductiveDef
<1>3. \A k \in Nat : Whole[k] = IF k = 0 THEN W0 ELSE D(Whole[k-1], k)
  BY <1>2 DEF NatInductiveDefConclusion
<1>4. Whole[0] = W0
  BY <1>3
<1>5. ASSUME NEW k \in Nat PROVE Whole[k+1] = Step(Whole[k])
  <2>1. Whole[k+1] = D(Whole[(k+1)-1], k+1)
    BY <1>3, k+1 \in Nat, k+1 # 0
  <2>2. (k+1)-1 = k
    OBVIOUS
  <2> QED BY <2>1, <2>2
<1> QED BY <1>4, <1>5

THEOREM WholeType == \A k \in Nat : Whole[k] \in [at : Nat, st : States]
<1> DEFINE P(k) == Whole[k] \in [at : Nat, st : States]
<1>1. P(0)
  BY WholeDef, Assumptions
<1>2. ASSUME NEW k \in Nat, P(k) PROVE P(k+1)
  <2>1. Whole[k+1] = Step(Whole[k])
    BY WholeDef
  <2>2. Whole[k].at \in Nat /\ Whole[k].st \in States
    BY <1>2
  <2>3. Size(Whole[k].at, Whole[k].st) \in Nat /\ After(Whole[k].at, Whole[k].st) \in States
    BY <2>2, Assumptions
  <2> QED BY <2>1, <2>2, <2>3 DEF Step
<1> HIDE DEF P
<1>3. \A k \in Nat : P(k)
  BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3 DEF P

(* units follow each other *)
THEOREM Follows == \A k \in Nat : Whole[k].at < Whole[k+1].at
<1> SUFFICES ASSUME NEW k \in Nat PROVE Whole[k].at < Whole[k+1].at
  OBVIOUS
<1>1. Whole[k].at \in Nat /\ Whole[k].st \in States
  BY WholeType
<1>2. Size(Whole[k].at, Whole[k].st) \in Nat \ {0}
  BY <1>1, Assumptions
<1> QED BY <1>1, <1>2, WholeDef DEF Step

THEOREM Monotone == \A i \in Nat : \A d \in Nat : Whole[i].at <= Whole[i+d].at
<1> SUFFICES ASSUME NEW i \in Nat PROVE \A d \in Nat : Whole[i].at <= Whole[i+d].at
  OBVIOUS
<1> DEFINE P(d) == Whole[i].at <= Whole[i+d].at
<1>1. P(0)
  BY WholeType
<1>2. ASSUME NEW d \in Nat, P(d) PROVE P(d+1)
  <2>1. Whole[i+d].at < Whole[(i+d)+1].at
    BY Follows, i+d \in Nat
  <2>2. Whole[i].at \in Nat /\ Whole[i+d].at \in Nat /\ Whole[(i+d)+1].at \in Nat
    BY WholeType, i+d \in Nat, (i+d)+1 \in Nat
  <2>3. (i+d)+1 = i+(d+1)
    OBVIOUS
  <2> QED BY <1>2, <2>1, <2>2, <2>3
<1> HIDE DEF P
<1>3. \A d \in Nat : P(d)
  BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3 DEF P

-----------------------------------------------------------------------------
(* however the bytes arrive, the decoder is where it would be for the whole *)
At(k) == pos = Whole[k].at /\ state = Whole[k].st
Inv == /\ arrived \in Nat /\ pos <= arrived
       /\ \E k \in Nat : At(k)

THEOREM Initially == Init => Inv
  BY WholeDef DEF Init, Inv, At

THEOREM Inductive == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> PICK k \in Nat : At(k)
  BY DEF Inv
<1>0. Whole[k].at \in Nat /\ Whole[k].st \in States
  BY WholeType
<1>1. CASE Take
  <2>1. At(k+1)'
    BY <1>1, WholeDef DEF Take, At, Step
  <2>2. pos' <= arrived' /\ arrived' \in Nat
    BY <1>1 DEF Take, CanTake, Inv
  <2> QED BY <2>1, <2>2 DEF Inv
<1>2. ASSUME NEW n \in Nat, Feed(n) PROVE Inv'
  <2>1. At(k)'
    BY <1>2 DEF Feed, At
  <2>2. pos \in Nat
    BY <1>0 DEF At
  <2>3. pos' <= arrived' /\ arrived' \in Nat
    BY <1>2, <2>2 DEF Feed, Inv
  <2> QED BY <2>1, <2>3 DEF Inv
<1>3. CASE UNCHANGED vars
  BY <1>3 DEF vars, Inv, At
<1> QED BY <1>1, <1>2, <1>3 DEF Next

THEOREM Invariant == Spec => []Inv
  BY Initially, Inductive, PTL DEF Spec

(* Where it stops, having taken all it can, is determined by the number of  *)
(* bytes that have arrived.                                                 *)
Stopped(k, n) == Whole[k].at <= n /\ ~(Whole[k].at + Size(Whole[k].at, Whole[k].st) <= n)

THEOREM StopsThere == \A k \in Nat : Inv /\ At(k) /\ ~CanTake => Stopped(k, arrived)
  BY DEF Inv, At, CanTake, Stopped

THEOREM ChunksDoNotMatter ==
    \A n \in Nat, i \in Nat, j \in Nat : Stopped(i, n) /\ Stopped(j, n) => i = j
<1>1. ASSUME NEW n \in Nat, NEW i \in Nat, NEW j \in Nat, Stopped(i, n), Stopped(j, n), i < j
      PROVE FALSE
  <2>1. Whole[i+1] = Step(Whole[i])
    BY WholeDef
  <2>2. ~(Whole[i+1].at <= n)
    BY <1>1, <2>1 DEF Stopped, Step
  <2>3. j - (i+1) \in Nat /\ (i+1) + (j - (i+1)) = j
    BY <1>1
  <2>4. Whole[i+1].at <= Whole[j].at
    BY <2>3, Monotone, i+1 \in Nat
  <2>5. Whole[i+1].at \in Nat /\ Whole[j].at \in Nat
    BY WholeType, i+1 \in Nat
  <2>6. Whole[j].at <= n
    BY <1>1 DEF Stopped
  <2> QED BY <2>2, <2>4, <2>5, <2>6
<1> QED
  <2> SUFFICES ASSUME NEW n \in Nat, NEW i \in Nat, NEW j \in Nat, Stopped(i, n), Stopped(j, n)
               PROVE i = j
    OBVIOUS
  <2> QED BY <1>1
=============================================================================
