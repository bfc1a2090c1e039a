SPECIFICATION Spec
CONSTANT Two <- TwoSample
INVARIANTS Conversions Additions Subtractions Multiplications Products Comparisons Divisions Small Bitwise
CHECK_DEADLOCK FALSE
