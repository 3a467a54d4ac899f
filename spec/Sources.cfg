SPECIFICATION Spec
INVARIANTS Contract SameLength Companion Emitted
PROPERTY Completes
CHECK_DEADLOCK FALSE
