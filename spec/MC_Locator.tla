----------------------------- MODULE MC_Locator ----------------------------
(***************************************************************************)
(* Locators and socket addresses (C23): the relations of Values compose to *)
(* the identity on specific addresses, and no other locator leads to a     *)
(* usable address.                                                         *)
(***************************************************************************)
EXTENDS Values, TLC

VARIABLES v, a, p, kind, port
vars == <<v, a, p, kind, port>>

Addresses4 == {Zeros(4), <<127, 0, 0, 1>>, <<0, 0, 0, 1>>, <<239, 255, 0, 1>>, <<255, 255, 255, 255>>}
Addresses6 == {Zeros(16), Zeros(15) \o <<1>>, Zeros(10) \o <<255, 255, 10, 0, 0, 1>>,
               <<32, 1, 13, 184>> \o Zeros(11) \o <<1>>, [i \in 1..16 |-> 255]}
Ports == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<28, 232>>, <<255, 255>>}
LongPorts == {LongPort(x) : x \in Ports} \cup {<<0, 1, 0, 0>>, <<1, 0, 0, 0>>, <<255, 255, 28, 232>>}

Init == /\ v \in {4, 6} /\ a \in IF v = 4 THEN Addresses4 ELSE Addresses6
        /\ p \in Ports /\ kind \in LocatorKinds /\ port \in LongPorts
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Wide == IF v = 4 THEN Zeros(12) \o a ELSE a
L == kind \o port \o Wide

Sockets == [v : {4}, a : Addresses4, p : Ports] \cup [v : {6}, a : Addresses6, p : Ports]

(* there and back *)
Lossless == ~IsZero(a) =>
    LET l == IF v = 4 THEN LocatorOf4(a, p) ELSE LocatorOf6(a, p)
    IN  /\ SocketToLocator(v, a, p, l)
        /\ {s \in Sockets : LocatorToSocket(l, s)} = {[v |-> v, a |-> a, p |-> p]}
CompactLossless == v = 4 /\ ~IsZero(a) =>
    /\ {s \in Sockets : CompactToSocket(a \o LongPort(p), s)} = {[v |-> 4, a |-> a, p |-> p]}
    /\ CompactToLocator(a \o LongPort(p), LocatorOf4(a, p))
(* not a usable address *)
Unusable == kind \notin {KindUdp4, KindUdp6} \/ ~IsZero(At(port, 1, 2)) =>
    \A s \in Sockets : LocatorToSocket(L, s) => IsWildcard(s)
=============================================================================
