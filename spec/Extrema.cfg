SPECIFICATION Spec
INVARIANTS Order Reach Emitted
PROPERTY Terminates
CHECK_DEADLOCK FALSE
