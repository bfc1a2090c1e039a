------------------------------ MODULE MC_Wire ------------------------------
(***************************************************************************)
(* The wire format itself: values of every type built from boundary field  *)
(* values, in both byte orders.  Every value is printed as a schedule.     *)
(***************************************************************************)
EXTENDS Wire, TLC, Json, IOUtils

CONSTANT Deep     \* more field values

VARIABLES ty, val, le
vars == <<ty, val, le>>

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

Pattern(n) == [i \in 1..n |-> 16 * i % 251]
Fill(x, n) == [i \in 1..n |-> x]

FieldValues(f) ==
    CASE f.t = "raw"  -> {Zeros(f.n), Pattern(f.n)}
      [] f.t = "num"  -> {Pattern(f.n), Fill(255, f.n), <<128>> \o Zeros(f.n - 1)}
      [] f.t = "sn"   -> {Pattern(8), <<127, 255, 255, 255, 255, 255, 255, 255>>, <<255, 255, 255, 255, 128, 0, 0, 1>>}
                         \cup IF ~Deep THEN {} ELSE
                         {<<0, 0, 0, 0, 255, 255, 255, 255>>, <<255, 255, 255, 255, 0, 0, 0, 0>>,
                          <<128, 0, 0, 0, 0, 0, 0, 0>>}
      [] f.t = "tag"  -> f.s
      [] f.t = "flaglen" -> {<<0, 1>>, <<1, 0>>, <<255, 254>>}
      [] f.t = "bits" -> {{}, {0}, {7, 8}, {31, 32}, {1, 40, 254}} \cup IF Deep THEN {{255}, 0..255} ELSE {}
      [] f.t = "locs" -> {<<>>, <<KindUdp4 \o Pattern(4) \o Pattern(16)>>,
                          <<KindInvalid \o Zeros(20), KindUdp6 \o <<0, 1, 2, 3>> \o Fill(255, 16)>>}
      [] f.t = "param" -> {<<>>, <<1, 2, 3, 4>>, Pattern(8)}

(* a value is chosen field by field *)
Init == /\ ty \in Types
        /\ val = <<>>
        /\ le \in BOOLEAN
Choose == /\ Len(val) < Len(Layout(ty))
          /\ \E x \in FieldValues(Layout(ty)[Len(val) + 1]) : val' = Append(val, x)
          /\ UNCHANGED <<ty, le>>
Next == Choose
Spec == Init /\ [][Next]_vars

Complete == Len(val) = Len(Layout(ty))

E == Enc(ty, val, le)      \* of the fields chosen so far
P == Parse(ty, E, le)

(* C20 *)
RoundTrip == Complete => P.ok /\ P.val = val /\ P.len = Len(E)

FixedWidth(f) == f.t \in {"raw", "num", "sn", "tag"}
RECURSIVE Reversed(_, _, _)
Reversed(fs, b, pos) ==      \* the fixed-width numbers reversed, the rest in place
    IF fs = <<>> THEN <<>>
    ELSE LET f == Head(fs)
             x == At(b, pos, f.n)
         IN  (CASE f.t = "raw" -> x
                [] f.t \in {"num", "tag"} -> Rev(x)
                [] f.t = "sn" -> Rev(At(x, 1, 4)) \o Rev(At(x, 5, 4))) \o Reversed(Tail(fs), b, pos + f.n)
OtherOrder ==
    Complete /\ (\A i \in DOMAIN Layout(ty) : FixedWidth(Layout(ty)[i])) =>
        Enc(ty, val, ~le) = Reversed(Layout(ty), E, 1)

(* C21 *)
(* all proper prefixes: those that end in the last field chosen *)
PrefixRejected ==
    val # <<>> =>
        LET before == Len(Enc(ty, SubSeq(val, 1, Len(val) - 1), le))
        IN  \A k \in before..(Len(E) - 1) : ~Parse(ty, SubSeq(E, 1, k), le).ok
(* C33: what follows makes no difference *)
Unambiguous == Complete => \A x \in {<<0>>, <<255, 255>>} : Parse(ty, E \o x, le) = P

Emitted == Emit /\ Complete => PrintT("SCHEDULE " \o ToJson([ty |-> ty, le |-> le, b |-> E]))
=============================================================================
