------------------------------ MODULE MC_Proxy -----------------------------
(***************************************************************************)
(* Proxies asked with arbitrary lists of changes (C17): all histories of   *)
(* Depth calls, lists over the numbers Ns (a list that has a number twice  *)
(* included).                                                              *)
(***************************************************************************)
EXTENDS Proxy, TLC, Json, IOUtils

CONSTANTS Depth, Lists, Proxies

VARIABLES out,      \* out[p]: numbers handed out, in order
          calls
vars == <<top, out, calls>>

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

C(i) == [sn |-> <<(i + 256) % 256>>]
QuickLists == {<<>>, <<C(2)>>, <<C(3), C(-1), C(2)>>, <<C(2), C(5), C(2)>>, <<C(5), C(3)>>}
DeepLists == QuickLists \cup {<<C(-128), C(5)>>, <<C(3), C(3), C(3)>>, <<C(127), C(-127)>>}

Init == ProxiesInit(Proxies) /\ out = [p \in 1..Proxies |-> <<>>] /\ calls = <<>>

Call(p, list) ==
    /\ Len(calls) < Depth
    /\ calls' = Append(calls, [p |-> p, list |-> [i \in DOMAIN list |-> list[i].sn]])
    /\ \/ \E i \in DOMAIN list : HandOut(p, list, i) /\ out' = [out EXCEPT ![p] = Append(@, list[i].sn)]
       \/ NothingUnsent(p, list) /\ UNCHANGED out
Next == \E p \in 1..Proxies, list \in Lists : Call(p, list)
Spec == Init /\ [][Next]_vars

Val(n) == IF n[1] >= 128 THEN n[1] - 256 ELSE n[1]

Increasing == \A p \in 1..Proxies : \A i \in 1..(Len(out[p]) - 1) : Val(out[p][i]) < Val(out[p][i + 1])

(* the result of the last call, over the history of the proxy *)
Handed(p) == {Val(out[p][i]) : i \in DOMAIN out[p]}
Expected(p, list) == {Val(list[i]) : i \in {j \in DOMAIN list : \A h \in Handed(p) : Val(list[j]) > h}}
Minimum(S) == CHOOSE x \in S : \A y \in S : x <= y
Correct == [][LET c == calls'[Len(calls')]
                  e == Expected(c.p, c.list)
              IN  /\ IF e = {} THEN out' = out
                     ELSE Val(out'[c.p][Len(out'[c.p])]) = Minimum(e) /\ Len(out'[c.p]) = Len(out[c.p]) + 1
                  /\ \A q \in 1..Proxies : q # c.p => out'[q] = out[q] /\ top'[q] = top[q]]_vars

(* the position handed out among equal numbers is left open *)
Emitted == Emit /\ Len(calls) = Depth => PrintT("SCHEDULE " \o ToJson([n |-> Proxies, calls |-> calls]))
=============================================================================
