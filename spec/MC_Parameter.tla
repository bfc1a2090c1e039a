---------------------------- MODULE MC_Parameter ---------------------------
(***************************************************************************)
(* Parameters (C22): padding for all short lengths, reading back.          *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils

CONSTANT MaxLength
VARIABLES id, v, le
vars == <<id, v, le>>

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

Init == /\ id \in {<<0, 0>>, <<0, 1>>, <<0, 29>>, <<29, 0>>, <<255, 255>>}
        /\ \E n \in 0..MaxLength : v \in {Zeros(n), [i \in 1..n |-> 255], [i \in 1..n |-> i % 256]}
        /\ le \in BOOLEAN
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

E == ParameterBytes(id, v, le)
P == Parse("Parameter", E, le)

Aligned == /\ Len(E) % 4 = 0
           /\ Len(E) - 4 >= Len(v) /\ Len(E) - 4 <= Len(v) + 3
           /\ ToNat(InOrder(At(E, 3, 2), le)) = Len(E) - 4
           /\ At(E, 5, Len(v)) = v
           /\ IsZero(SubSeq(E, 5 + Len(v), Len(E)))
ReadBack == P.ok /\ P.len = Len(E) /\ P.val = <<id, Padded(v)>>
(* what was encoded is read in one way only, whatever follows *)
Unambiguous ==
    /\ ReadsParameter(E \o <<7>>, le, "ok", id, Padded(v), Len(E))
    /\ ~ReadsParameter(E \o <<7>>, le, "ok", id, Padded(v), Len(E) + 1)
    /\ ~ReadsParameter(E, le, "err", <<>>, <<>>, 0)
    /\ Len(v) > 0 => ReadsParameter(SubSeq(E, 1, Len(E) - 1), le, "err", <<>>, <<>>, 0)
AlreadyPadded == Padded(Padded(v)) = Padded(v)
Limit == TooLong(Zeros(65533)) /\ ~TooLong(Zeros(65532)) /\ TooLong(Zeros(70000))
Emitted == Emit => PrintT("SCHEDULE " \o ToJson([id |-> id, v |-> v, le |-> le]))
=============================================================================
