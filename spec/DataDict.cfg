SPECIFICATION Spec
INVARIANTS Decided Complete UnknownIgnored OmegaOptional
PROPERTY Terminates
CHECK_DEADLOCK FALSE
