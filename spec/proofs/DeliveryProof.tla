--------------------------- MODULE DeliveryProof ---------------------------
(***************************************************************************)
(* DeliveryAbs is right for any number of changes, proxies and operations  *)
(* and for numbers of any size: proved with TLAPS.                         *)
(***************************************************************************)
EXTENDS DeliveryAbs, TLAPS

Types ==
    /\ cache \in SUBSET Int /\ last \in Int /\ joined \in SUBSET Proxies
    /\ top \in [Proxies -> Int] /\ any \in [Proxies -> BOOLEAN]
    /\ handed \in [Proxies -> SUBSET Int] /\ gone \in [Proxies -> SUBSET Int]

Inv ==
    /\ Types
    /\ \A n \in cache : n <= last
    /\ \A p \in Proxies :
          /\ any[p] => top[p] <= last
          /\ ~any[p] => handed[p] = {}
          /\ \A n \in handed[p] : any[p] /\ n <= top[p]
          /\ \A n \in cache : any[p] /\ n <= top[p] => n \in handed[p]
          /\ \A n \in gone[p] : n <= last
          /\ handed[p] \cap gone[p] = {}
          /\ gone[p] \cap cache = {}

-----------------------------------------------------------------------------
THEOREM Initially == Init => Inv
  BY FirstIsInt DEF Init, Inv, Types

THEOREM Inductive == Inv /\ [Next]_avars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_avars PROVE Inv'
  OBVIOUS
<1>1. CASE Write
  BY <1>1 DEF Write, Inv, Types
<1>2. CASE Skip
  BY <1>2 DEF Skip, Inv, Types
<1>3. ASSUME NEW n \in cache, Remove(n) PROVE Inv'
  BY <1>3 DEF Remove, Inv, Types, Pending
<1>4. ASSUME NEW p \in Proxies, Join(p) PROVE Inv'
  BY <1>4 DEF Join, Inv, Types
<1>5. ASSUME NEW p \in Proxies, NEW n \in cache, HandOut(p, n) PROVE Inv'
  BY <1>5 DEF HandOut, Candidate, Unsent, Inv, Types
<1>6. CASE UNCHANGED avars
  BY <1>6 DEF avars, Inv, Types
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next

THEOREM Invariant == Spec => []Inv
  BY Initially, Inductive, PTL DEF Spec

THEOREM SameUnsentHolds == Inv => SameUnsent
  BY DEF Inv, Types, SameUnsent, Unsent, Pending

THEOREM NeverRemovedHolds == Inv => NeverRemoved
  BY DEF Inv, NeverRemoved

THEOREM StepHolds == Inv /\ [Next]_avars => OnceInOrder /\ Kept /\ Grows
<1> SUFFICES ASSUME Inv, [Next]_avars PROVE OnceInOrder /\ Kept /\ Grows
  OBVIOUS
<1>1. CASE Write
  BY <1>1 DEF Write, Inv, Types, OnceInOrder, Kept, Grows, Pending
<1>2. CASE Skip
  BY <1>2 DEF Skip, Inv, Types, OnceInOrder, Kept, Grows, Pending
<1>3. ASSUME NEW n \in cache, Remove(n) PROVE OnceInOrder /\ Kept /\ Grows
  BY <1>3 DEF Remove, Inv, Types, OnceInOrder, Kept, Grows, Pending
<1>4. ASSUME NEW p \in Proxies, Join(p) PROVE OnceInOrder /\ Kept /\ Grows
  BY <1>4 DEF Join, Inv, Types, OnceInOrder, Kept, Grows, Pending
<1>5. ASSUME NEW p \in Proxies, NEW n \in cache, HandOut(p, n) PROVE OnceInOrder /\ Kept /\ Grows
  <2>1. \A m \in handed[p] : m < n
    BY <1>5 DEF HandOut, Candidate, Unsent, Inv, Types
  <2>2. \A q \in Proxies : handed'[q] = IF q = p THEN handed[p] \cup {n} ELSE handed[q]
    BY <1>5 DEF HandOut, Inv, Types
  <2>3. OnceInOrder
    BY <2>1, <2>2 DEF OnceInOrder
  <2>4. Kept
    BY <1>5, <2>2 DEF Kept, Pending, HandOut
  <2> QED
    BY <2>2, <2>3, <2>4 DEF Grows
<1>6. CASE UNCHANGED avars
  BY <1>6 DEF avars, OnceInOrder, Kept, Grows, Pending
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next

THEOREM Safe == Spec => [](SameUnsent /\ NeverRemoved) /\ [][OnceInOrder /\ Kept /\ Grows]_avars
<1>1. Inv => SameUnsent /\ NeverRemoved
  BY SameUnsentHolds, NeverRemovedHolds
<1>2. Inv /\ Inv' /\ [Next]_avars => [OnceInOrder /\ Kept /\ Grows]_avars
  BY StepHolds
<1> QED
  BY Invariant, <1>1, <1>2, PTL DEF Spec
=============================================================================
