----------------------------- MODULE MC_Writer -----------------------------
(***************************************************************************)
(* A stateless writer with one-byte numbers: all histories of Depth        *)
(* operations (C16, and the reader locators of C18).                       *)
(***************************************************************************)
EXTENDS StatelessWriter, TLC, Json, IOUtils

CONSTANTS Depth, Starts, Items
VARIABLES changes, ops, start
vars == <<wvars, changes, ops, start>>

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

Init == /\ start \in Starts /\ WriterInit(<<7>>, start)
        /\ changes = <<>> /\ ops = <<>>

Make(k, h) ==
    /\ MakeChange(k, h)
    /\ changes' = Append(changes, MadeChange(k, h))
    /\ ops' = Append(ops, [op |-> "c", x |-> k])
Add(x) == AddLocator(x) /\ ops' = Append(ops, [op |-> "l", x |-> x]) /\ UNCHANGED changes
Del(x) == RemoveLocator(x) /\ ops' = Append(ops, [op |-> "x", x |-> x]) /\ UNCHANGED changes

Next == /\ Len(ops) < Depth /\ UNCHANGED start
        /\ \/ \E k \in 0..2 : Make(k, <<k>>)
           \/ \E x \in Items : Add(x) \/ Del(x)
Spec == Init /\ [][Next]_vars

TheStarts == {<<0>>, <<255>>, <<254>>, <<5>>, <<128>>}
Val(n) == IF n[1] >= 128 THEN n[1] - 256 ELSE n[1]

Consecutive == /\ \A i \in DOMAIN changes : Val(changes[i].sn) = Val(start) + i
               /\ Val(last) = Val(start) + Len(changes)
AsAsked == LET asked == SelectSeq(ops, LAMBDA o : o.op = "c")
           IN  /\ Len(asked) = Len(changes)
               /\ \A i \in DOMAIN changes : changes[i].k = asked[i].x /\ changes[i].h = <<asked[i].x>> /\ changes[i].g = <<7>>

(* the locators: those added and not removed since, in order *)
Alive == {i \in DOMAIN ops : /\ ops[i].op = "l"
                             /\ \A j \in (i + 1)..Len(ops) : ~(ops[j].op = "x" /\ ops[j].x = ops[i].x)}
RECURSIVE InSequence(_)
InSequence(S) == IF S = {} THEN <<>>
                 ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y
                      IN  <<ops[i].x>> \o InSequence(S \ {i})
ExactlyAdded == locators = InSequence(Alive)

Emitted == Emit /\ Len(ops) = Depth => PrintT("SCHEDULE " \o ToJson([start |-> start, ops |-> ops]))
=============================================================================
