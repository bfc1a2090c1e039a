------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Numbers wider than TLC's integers, as sequences of bytes.  A number is  *)
(* kept in canonical form: most significant byte first, two's complement   *)
(* if it is signed.  All operations are exact.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Byte == 0..255

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]

(* the canonical form of the bytes of a number on the wire *)
InOrder(b, le) == IF le THEN Rev(b) ELSE b

Zeros(n) == [i \in 1..n |-> 0]

IsZero(a) == \A i \in DOMAIN a : a[i] = 0

Negative(a) == a[1] >= 128

(* a small natural number in n bytes *)
RECURSIVE Pow256(_)
Pow256(k) == IF k = 0 THEN 1 ELSE 256 * Pow256(k - 1)

FromNat(x, n) ==
    [i \in 1..n |-> IF n - i > 2 THEN 0 ELSE (x \div Pow256(n - i)) % 256]

(* the value of a canonical number known to be below 2^24 *)
ToNat(a) ==
    LET n == Len(a)
    IN  a[n] + (IF n >= 2 THEN 256 * a[n-1] ELSE 0) + (IF n >= 3 THEN 65536 * a[n-2] ELSE 0)

(* does a canonical unsigned number fit 24 bits, so that ToNat is exact? *)
IsSmall(a) == \A i \in 1..(Len(a) - 3) : a[i] = 0

-----------------------------------------------------------------------------
(* comparison of numbers of the same width *)

ULt(a, b) ==
    LET d == {i \in DOMAIN a : a[i] # b[i]}
    IN  d # {} /\ LET i == MinOf(d) IN a[i] < b[i]

ULe(a, b) == ~ULt(b, a)

FlipSign(a) == [a EXCEPT ![1] = (a[1] + 128) % 256]

SLt(a, b) == ULt(FlipSign(a), FlipSign(b))

Lt(a, b, signed) == IF signed THEN SLt(a, b) ELSE ULt(a, b)
Le(a, b, signed) == ~Lt(b, a, signed)

Cmp(a, b, signed) == IF Lt(a, b, signed) THEN -1 ELSE IF Lt(b, a, signed) THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* modular arithmetic on numbers of the same width *)


AddC(a, b, cin) ==
    LET n == Len(a)
        RECURSIVE go(_, _, _)
        go(i, cy, acc) ==
            IF i = 0 THEN [sum |-> acc, carry |-> cy]
            ELSE LET t == a[i] + b[i] + cy
                 IN  go(i - 1, t \div 256, <<t % 256>> \o acc)
    IN  go(n, cin, <<>>)

WAdd(a, b) == AddC(a, b, 0).sum
Not(a) == [i \in DOMAIN a |-> 255 - a[i]]
WSub(a, b) == AddC(a, Not(b), 1).sum
Neg(a) == WSub(Zeros(Len(a)), a)

(* |a|, as an unsigned number of the same width *)
Abs(a) == IF Negative(a) THEN Neg(a) ELSE a

-----------------------------------------------------------------------------
(* checked arithmetic: the exact result, or nothing if it is out of range *)

None == <<>>

CheckedAdd(a, b, signed) ==
    LET s == AddC(a, b, 0)
    IN  IF signed
        THEN IF Negative(a) = Negative(b) /\ Negative(s.sum) # Negative(a) THEN None ELSE s.sum
        ELSE IF s.carry = 1 THEN None ELSE s.sum

CheckedSub(a, b, signed) ==
    LET r == WSub(a, b)
    IN  IF signed
        THEN IF Negative(a) # Negative(b) /\ Negative(r) # Negative(a) THEN None ELSE r
        ELSE IF ULt(a, b) THEN None ELSE r

(* the exact product of unsigned numbers, twice as wide *)
UMul(a, b) ==
    LET n == Len(a)
        RECURSIVE sum(_, _)
        \* column k (0 = least significant) of the product, rows 0..i
        sum(k, i) ==
            IF i < 0 THEN 0
            ELSE (IF i <= k /\ k - i < n /\ i < n THEN a[n - i] * b[n - (k - i)] ELSE 0) + sum(k, i - 1)
        RECURSIVE go(_, _, _)
        go(k, cy, acc) ==
            IF k = 2 * n THEN acc
            ELSE LET t == cy + (IF k <= 2 * n - 2 THEN sum(k, k) ELSE 0)
                 IN  go(k + 1, t \div 256, <<t % 256>> \o acc)
    IN  go(0, 0, <<>>)

CheckedMul(a, b, signed) ==
    LET n == Len(a)
    IN  IF ~signed
        THEN LET p == UMul(a, b)
             IN  IF IsZero(SubSeq(p, 1, n)) THEN SubSeq(p, n + 1, 2 * n) ELSE None
        ELSE LET p    == UMul(Abs(a), Abs(b))
                 low  == SubSeq(p, n + 1, 2 * n)
                 neg  == Negative(a) # Negative(b)
             IN  IF ~IsZero(SubSeq(p, 1, n)) THEN None
                 ELSE IF neg
                      \* -2^(w-1) is in range, 2^(w-1) is not
                      THEN IF ULe(low, FlipSign(Zeros(n))) THEN Neg(low) ELSE None
                      ELSE IF Negative(low) THEN None ELSE low

(* Is q (possibly None) the checked quotient a / b, truncated towards zero?
   Decided by the defining relation a = q * b + r, |r| < |b|, sign of r = sign of a. *)
IsCheckedDiv(a, b, q, signed) ==
    LET n     == Len(a)
        lowest == FlipSign(Zeros(n))
        minus1 == [i \in 1..n |-> 255]
    IN  IF IsZero(b) \/ (signed /\ a = lowest /\ b = minus1) THEN q = None
        ELSE /\ q # None
             /\ LET aa == IF signed THEN Abs(a) ELSE a
                    bb == IF signed THEN Abs(b) ELSE b
                    qq == IF signed THEN Abs(q) ELSE q
                    p  == UMul(qq, bb)
                    r  == WSub(aa, SubSeq(p, n + 1, 2 * n))
                IN  /\ IsZero(SubSeq(p, 1, n))
                    /\ ULe(SubSeq(p, n + 1, 2 * n), aa)
                    /\ ULt(r, bb)
                    /\ signed => (IsZero(q) \/ (Negative(q) <=> (Negative(a) # Negative(b))))

(* a + k for a natural number k below 2^24 *)
CheckedAddNat(a, k, signed) == CheckedAdd(a, FromNat(k, Len(a)), signed)

-----------------------------------------------------------------------------
(* the bits of a byte *)

Bit(x, k) == (x \div (CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8
                        [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] OTHER -> 128)) % 2

BitsOf(x) == {k \in 0..7 : Bit(x, k) = 1}

=============================================================================
