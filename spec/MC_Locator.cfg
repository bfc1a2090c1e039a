SPECIFICATION Spec
CONSTANT Std = FALSE
INVARIANTS Lossless CompactLossless Unusable
CHECK_DEADLOCK FALSE
