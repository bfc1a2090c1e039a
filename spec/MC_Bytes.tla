------------------------------ MODULE MC_Bytes -----------------------------
(***************************************************************************)
(* The arithmetic of Bytes on one-byte numbers, exhaustively, and on some  *)
(* two-byte numbers, against TLC's integers.                               *)
(***************************************************************************)
EXTENDS Bytes, TLC

CONSTANTS Two         \* some two-byte numbers, as naturals below 65536

VARIABLES a, b, n, signed
vars == <<a, b, n, signed>>

Init == /\ signed \in BOOLEAN
        /\ \/ n = 1 /\ a \in 0..255
           \/ n = 2 /\ a \in Two
        /\ b = 0
Next == /\ b = 0
        /\ b' \in IF n = 1 THEN 0..255 ELSE Two
        /\ UNCHANGED <<a, n, signed>>
Spec == Init /\ [][Next]_vars

TwoSample == {0, 1, 2, 3, 127, 128, 255, 256, 257, 1000, 32766, 32767, 32768, 32769, 40000,
              65279, 65280, 65281, 65533, 65534, 65535, 181, 182, 362, 363}

Modulus == IF n = 1 THEN 256 ELSE 65536
Half == Modulus \div 2
Signed(x) == IF signed /\ x >= Half THEN x - Modulus ELSE x
A == Signed(a)
B == Signed(b)
Ba == FromNat(a, n)
Bb == FromNat(b, n)

InRange(x) == IF signed THEN x >= -Half /\ x < Half ELSE x >= 0 /\ x < Modulus
Encode(x) == FromNat(IF x < 0 THEN x + Modulus ELSE x, n)
Checked(x) == IF InRange(x) THEN Encode(x) ELSE None

Conversions == ToNat(Ba) = a /\ Rev(Rev(Ba)) = Ba /\ IsSmall(Ba)
Additions == CheckedAdd(Ba, Bb, signed) = Checked(A + B)
Subtractions == CheckedSub(Ba, Bb, signed) = Checked(A - B)
Multiplications == n = 1 \/ (a < 182 /\ b < 182) \/ signed =>
    CheckedMul(Ba, Bb, signed) = Checked(A * B)
Products == (a < 32768 \/ b < 32768) /\ n = 1 => ToNat(UMul(Ba, Bb)) = a * b
Comparisons == Cmp(Ba, Bb, signed) = (IF A < B THEN -1 ELSE IF A > B THEN 1 ELSE 0)

(* the quotient truncated towards zero, and nothing else, is accepted *)
AbsI(x) == IF x < 0 THEN -x ELSE x
Quotient == IF B = 0 THEN None
            ELSE LET q == AbsI(A) \div AbsI(B)
                 IN  Checked(IF (A < 0) # (B < 0) THEN -q ELSE q)
Divisions ==
    /\ IsCheckedDiv(Ba, Bb, Quotient, signed)
    /\ \A x \in {0, 1, 2, 127, 128, 254, 255} :
          FromNat(x, n) # Quotient => ~IsCheckedDiv(Ba, Bb, FromNat(x, n), signed)
    /\ Quotient # None => ~IsCheckedDiv(Ba, Bb, None, signed)

Small == n = 1 /\ b < 8 => (CheckedAddNat(Ba, b, FALSE) = IF a + b < 256 THEN FromNat(a + b, 1) ELSE None)
Bitwise == n = 1 => a = (IF Bit(a, 0) = 1 THEN 1 ELSE 0) + (IF Bit(a, 1) = 1 THEN 2 ELSE 0)
                       + (IF Bit(a, 2) = 1 THEN 4 ELSE 0) + (IF Bit(a, 3) = 1 THEN 8 ELSE 0)
                       + (IF Bit(a, 4) = 1 THEN 16 ELSE 0) + (IF Bit(a, 5) = 1 THEN 32 ELSE 0)
                       + (IF Bit(a, 6) = 1 THEN 64 ELSE 0) + (IF Bit(a, 7) = 1 THEN 128 ELSE 0)
=============================================================================
