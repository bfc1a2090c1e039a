SPECIFICATION Spec
CONSTANTS N = 10 F = 27
INVARIANTS Determined FractionsOrdered NanosOrdered RoundTripNanos RoundTripFraction Total
CHECK_DEADLOCK FALSE
