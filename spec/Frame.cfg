SPECIFICATION Spec
INVARIANTS FrameFree Decision UserUntouched
PROPERTY Terminates
CHECK_DEADLOCK FALSE
