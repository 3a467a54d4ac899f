SPECIFICATION Spec
INVARIANTS Invariant Emitted
CHECK_DEADLOCK FALSE
