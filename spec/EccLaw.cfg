SPECIFICATION Spec
CONSTANTS N = 40 W = 30
INVARIANTS Unique ZeroIff Bounded Scale
PROPERTY Grows
CHECK_DEADLOCK FALSE
