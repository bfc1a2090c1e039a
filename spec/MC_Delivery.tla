---------------------------- MODULE MC_Delivery ----------------------------
(***************************************************************************)
(* The writer, the cache and the proxies together (C19): every schedule of *)
(* writing, removing, joining and draining within the bounds.  The proxies *)
(* of Proxy, which only remember a number, run beside the proxies of       *)
(* Delivery, which remember what they have handed out.                     *)
(***************************************************************************)
EXTENDS Delivery, TLC, Json, IOUtils

CONSTANTS Writes,     \* changes made at most
          Proxies,    \* at first
          MaxProxies,
          Depth,      \* operations at most, if recorded
          Recorded    \* record the operations?

VARIABLES top, last, gone, ops
P == INSTANCE Proxy
vars == <<dvars, top, last, gone, ops>>

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

Init == /\ DeliveryInit(Proxies)
        /\ P!ProxiesInit(Proxies)
        /\ last = <<253>>                     \* -3: the numbers pass zero
        /\ gone = [p \in 1..Proxies |-> {}]   \* changes removed before p reached them
        /\ ops = <<>>

Log(o) == ops' = IF Recorded THEN Append(ops, o) ELSE ops
More == Recorded => Len(ops) < Depth

Change == [sn |-> CheckedAddNat(last, 1, TRUE)]

DoWrite ==
    /\ More /\ made < Writes
    /\ Write(Change) /\ last' = Change.sn
    /\ UNCHANGED <<top, gone>>
    /\ Log([op |-> "w", x |-> 0])
DoSkip ==
    /\ More /\ made < Writes
    /\ SkipWrite(Change) /\ last' = Change.sn
    /\ UNCHANGED <<top, gone>>
    /\ Log([op |-> "W", x |-> 0])
DoRemove ==
    /\ More
    /\ \E c \in InCache :
          /\ Remove(c.sn)
          /\ gone' = [p \in DOMAIN gone |-> IF c \in Pending(p) THEN gone[p] \cup {c} ELSE gone[p]]
          /\ Log([op |-> "r", x |-> c.id - 1])
    /\ UNCHANGED <<top, last>>
DoNext(p) ==
    /\ More /\ p \in DOMAIN handed
    /\ \/ HandOutNext(p) /\ \E i \in DOMAIN cache : P!HandOut(p, cache, i)
       \/ Recorded /\ HandOutNothing(p) /\ P!NothingUnsent(p, cache)
    /\ UNCHANGED <<last, gone>>
    /\ Log([op |-> "n", x |-> p - 1])
DoJoin ==
    /\ More /\ Len(handed) < MaxProxies
    /\ JoinProxy /\ P!Join
    /\ gone' = Append(gone, {})
    /\ UNCHANGED last
    /\ Log([op |-> "p", x |-> 0])

Next == DoWrite \/ DoSkip \/ DoRemove \/ DoJoin \/ \E p \in 1..MaxProxies : DoNext(p)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A p \in 1..MaxProxies : WF_vars(DoNext(p))

(* a proxy that remembers one number knows what it has to hand out *)
SameNext == \A p \in DOMAIN handed :
    {cache[i] : i \in P!Candidates(p, cache)} = IF Pending(p) = {} THEN {} ELSE {Oldest(p)}

InOrder2 == \A p \in DOMAIN handed : \A i \in 1..(Len(handed[p]) - 1) :
    SLt(handed[p][i].sn, handed[p][i + 1].sn)
Once == \A p \in DOMAIN handed : \A i, j \in DOMAIN handed[p] : i # j => handed[p][i].id # handed[p][j].id
NeverRemoved == \A p \in DOMAIN handed : Range(handed[p]) \cap gone[p] = {}
FromCache == [][\A p \in DOMAIN handed :
    handed'[p] # handed[p] => handed'[p][Len(handed'[p])] \in InCache]_vars

(* what stays in the cache is handed out in the end *)
Delivered == \A p \in 1..MaxProxies : \A id \in 1..Writes :
    LET Due == p \in DOMAIN handed /\ \E c \in Pending(p) : c.id = id
    IN  Due ~> ~Due

(* all of this is DeliveryAbs, of which the same is proved without bounds *)
Value(n) == IF n[1] >= 128 THEN n[1] - 256 ELSE n[1]
Values(S) == {Value(c.sn) : c \in S}
Here(p) == p \in DOMAIN handed
Unbounded == INSTANCE DeliveryAbs WITH
    Proxies <- 1..MaxProxies, First <- -3,
    cache <- Values(InCache), last <- Value(last), joined <- DOMAIN handed,
    top <- [p \in 1..MaxProxies |-> IF Here(p) THEN (IF top[p] = None THEN -3 ELSE Value(top[p])) ELSE -3],
    any <- [p \in 1..MaxProxies |-> Here(p) /\ top[p] # None],
    handed <- [p \in 1..MaxProxies |-> IF Here(p) THEN Values(Range(handed[p])) ELSE {}],
    gone <- [p \in 1..MaxProxies |-> IF Here(p) THEN Values(gone[p]) ELSE {}]
Refines == Unbounded!Spec

Emitted == Emit /\ Recorded /\ Len(ops) = Depth => PrintT("SCHEDULE " \o ToJson([n |-> Proxies, ops |-> ops]))
=============================================================================
