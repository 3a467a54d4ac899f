SPECIFICATION Spec
INVARIANTS Decision Aligned Inside OriginFree
PROPERTY Terminates
CHECK_DEADLOCK FALSE
