SPECIFICATION Spec
INVARIANTS Effective OriginalKept Lengths Exactly Disabled FirstDropped PhaseOk Monotone
PROPERTY Terminates
CHECK_DEADLOCK FALSE
