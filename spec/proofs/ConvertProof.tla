---------------------------- MODULE ConvertProof ---------------------------
(***************************************************************************)
(* What MC_Convert checks for small N and F, for the real ones: a second   *)
(* has 10^9 nanoseconds and 2^32 fractions.  Proved with TLAPS.            *)
(***************************************************************************)
EXTENDS MC_Convert, TLAPS

ASSUME Real == N = 1000000000 /\ F = 4294967296

Ranges == n \in 0..(N - 1) /\ m \in 0..(N - 1) /\ f \in 0..(F - 1) /\ g \in 0..(F - 1)

THEOREM Ranges => Determined
<1> SUFFICES ASSUME Ranges, ToNanos(f, n), ToNanos(f, m) PROVE n = m
  BY DEF Determined
<1>1. n * 4294967296 < (m + 1) * 4294967296 /\ m * 4294967296 < (n + 1) * 4294967296
  BY Real, Z3 DEF Ranges, ToNanos
<1>2. n < m + 1 /\ m < n + 1
  BY <1>1, Real, Z3 DEF Ranges
<1> QED BY <1>2, Real DEF Ranges
THEOREM Ranges => FractionsOrdered
  BY Real, Z3 DEF Ranges, FractionsOrdered, ToFraction
THEOREM Ranges => NanosOrdered
  BY Real, Z3 DEF Ranges, NanosOrdered, ToNanos
THEOREM Ranges => RoundTripNanos
  BY Real, Z3 DEF Ranges, RoundTripNanos, ToFraction, ToNanos
THEOREM Ranges => RoundTripFraction
  BY Real, Z3 DEF Ranges, RoundTripFraction, ToFraction, ToNanos
THEOREM Ranges => Total
<1> SUFFICES ASSUME Ranges PROVE Total
  OBVIOUS
<1>1. PICK y \in 0..(F - 1) : y = (n * F) \div N
  BY Real, Z3 DEF Ranges
<1>2. ToFraction(n, y)
  BY <1>1, Real, Z3 DEF Ranges, ToFraction
<1>3. PICK x \in 0..(N - 1) : ToNanos(f, x)
  <2> DEFINE c == (f * N) \div F
             r == (f * N) % F
  <2>1. c \in Int /\ r \in Int /\ f * N = c * F + r /\ 0 <= r /\ r < F
    BY Real DEF Ranges
  <2>2. c \in 0..(N - 1)
    BY <2>1, Real, Z3 DEF Ranges
  <2>3. ToNanos(f, c)
    BY <2>1, Real, Z3 DEF Ranges, ToNanos
  <2> QED BY <2>2, <2>3
<1> QED BY <1>2, <1>3 DEF Total
=============================================================================
