----------------------------- MODULE MC_Compare -----------------------------
(***************************************************************************)
(* Comparison of wire values (C30): over all triples of small values of    *)
(* every ordered type, the order of Values is a total order that agrees    *)
(* with equality, and equality is equality of encodings.  Every pair is    *)
(* printed as a schedule.                                                  *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils

CONSTANT Deep

VARIABLES ty, vs      \* a type, and the values chosen so far
vars == <<ty, vs>>

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

At1(x, n, i) == [j \in 1..n |-> IF j = i THEN x ELSE 0]

Extremes == {<<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 1>>, <<0, 0, 1, 0>>, <<0, 0, 0, 0>>}

FieldValues(f) ==
    CASE f.t = "raw" -> {Zeros(f.n), At1(1, f.n, f.n), At1(1, f.n, 1), At1(200, f.n, 1)}
                        \cup IF Deep THEN {At1(200, f.n, f.n), [j \in 1..f.n |-> 255]} ELSE {}
      [] f.t = "num" /\ f.n = 4 -> IF Deep THEN Extremes ELSE {x \in Extremes : x # <<0, 0, 1, 0>>}
      [] f.t = "sn" -> {h \o w : h \in {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 1>>, <<128, 0, 0, 0>>},
                               w \in {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 1>>, <<128, 0, 0, 0>>}}

RECURSIVE Product(_)
Product(fs) ==
    IF fs = <<>> THEN {<<>>}
    ELSE {<<x>> \o y : x \in FieldValues(Head(fs)), y \in Product(Tail(fs))}

(* few changes, as there are many fields *)
Ends(n) == {Zeros(n), At1(1, n, n)}
Numbers == {Zeros(8), [j \in 1..8 |-> 255], <<0, 0, 0, 1, 0, 0, 0, 0>>}
ChangeValues == {<<k, g, h, x>> : k \in {<<0>>, <<1>>, <<2>>}, g \in Ends(16), h \in Ends(16), x \in Numbers}

ValuesOf(t) == IF t = "CacheChange" THEN ChangeValues ELSE Product(Layout(t))

Init == ty \in OrderedTypes /\ vs = <<>>
Next == /\ Len(vs) < 3
        /\ \E v \in ValuesOf(ty) : vs' = Append(vs, v)
        /\ UNCHANGED ty
Spec == Init /\ [][Next]_vars

C(i, j) == CmpValues(ty, vs[i], vs[j])

Total == Len(vs) >= 2 =>
    /\ C(1, 2) \in {-1, 0, 1}
    /\ C(1, 2) = 0 - C(2, 1)
    /\ (C(1, 2) = 0) <=> (vs[1] = vs[2])
    /\ SameValue(ty, vs[1], vs[2]) <=> vs[1] = vs[2]
    /\ (Enc(ty, vs[1], TRUE) = Enc(ty, vs[2], TRUE)) <=> (vs[1] = vs[2])

Transitive == Len(vs) = 3 /\ C(1, 2) <= 0 /\ C(2, 3) <= 0 => C(1, 3) <= 0

(* a number is above its predecessor, not only where its bytes say so *)
SignMatters == Len(vs) = 2 /\ ty = "Count_t" =>
    (vs[1] = <<<<255, 255, 255, 255>>>> /\ vs[2] = <<<<0, 0, 0, 1>>>> => C(1, 2) = -1)

Emitted == Emit /\ Len(vs) = 2 =>
    PrintT("SCHEDULE " \o ToJson([ty |-> ty, a |-> Enc(ty, vs[1], TRUE), b |-> Enc(ty, vs[2], FALSE)]))
=============================================================================
