----------------------------- MODULE MC_Convert ----------------------------
(***************************************************************************)
(* The relations of Values for times and durations imply what the          *)
(* properties C24 and C25 say of order and round trips.  Checked on        *)
(* integers, with N "nanoseconds" and F > N "fractions" in a second.       *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS N, F
VARIABLES n, f, m, g
vars == <<n, f, m, g>>

(* the relations NanosOfFraction and FractionOfNanos, scaled *)
ToFraction(x, y) == y * N <= x * F /\ x * F < y * N + F
ToNanos(y, x) == x * F <= y * N /\ y * N < (x + 1) * F

Init == n \in 0..(N - 1) /\ m \in 0..(N - 1) /\ f \in 0..(F - 1) /\ g \in 0..(F - 1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* time to system time is a function *)
Determined == ToNanos(f, n) /\ ToNanos(f, m) => n = m
(* both keep the order *)
FractionsOrdered == ToFraction(n, f) /\ ToFraction(m, g) /\ n < m => f < g
NanosOrdered == ToNanos(f, n) /\ ToNanos(g, m) /\ f <= g => n <= m
(* a round trip loses less than two *)
RoundTripNanos == ToFraction(n, f) /\ ToNanos(f, m) => m <= n /\ n - m < 2
RoundTripFraction == ToNanos(f, n) /\ ToFraction(n, g) => g <= f /\ (f - g) * N < 2 * F
(* there is a result *)
Total == /\ \E y \in 0..(F - 1) : ToFraction(n, y)
         /\ \E x \in 0..(N - 1) : ToNanos(f, x)
=============================================================================
