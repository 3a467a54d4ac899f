SPECIFICATION Spec
INVARIANTS Defined Same Complete Emitted
PROPERTY Ends
CHECK_DEADLOCK FALSE
