------------------------------ MODULE MC_Flags -----------------------------
(***************************************************************************)
(* The flags byte as a set of bits: every byte, every mask, every          *)
(* operation (C26), against arithmetic on the byte.                        *)
(***************************************************************************)
EXTENDS Bytes

VARIABLES flags,   \* the set of flags that are set
          op, mask, before
vars == <<flags, op, mask, before>>

Value(S) == (IF 0 \in S THEN 1 ELSE 0) + (IF 1 \in S THEN 2 ELSE 0) + (IF 2 \in S THEN 4 ELSE 0)
          + (IF 3 \in S THEN 8 ELSE 0) + (IF 4 \in S THEN 16 ELSE 0) + (IF 5 \in S THEN 32 ELSE 0)
          + (IF 6 \in S THEN 64 ELSE 0) + (IF 7 \in S THEN 128 ELSE 0)

Init == flags \in SUBSET (0..7) /\ op = "init" /\ mask = 0 /\ before = flags

Set   == op = "init" /\ op' = "set" /\ mask' \in 0..255 /\ flags' = flags \cup BitsOf(mask') /\ before' = flags
Clear == op = "init" /\ op' = "clear" /\ mask' \in 0..255 /\ flags' = flags \ BitsOf(mask') /\ before' = flags
Next == Set \/ Clear
Spec == Init /\ [][Next]_vars

(* every flag outside the mask keeps its value, every flag in the mask has the new one *)
Independent == op # "init" =>
    \A k \in 0..7 : (k \in flags) = (IF Bit(mask, k) = 1 THEN op = "set" ELSE k \in before)
Representable == BitsOf(Value(flags)) = flags
=============================================================================
