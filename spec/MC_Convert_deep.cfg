SPECIFICATION Spec
CONSTANTS N = 13 F = 64
INVARIANTS Determined FractionsOrdered NanosOrdered RoundTripNanos RoundTripFraction Total
CHECK_DEADLOCK FALSE
