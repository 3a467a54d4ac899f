SPECIFICATION Spec
INVARIANTS Right ZeroOnlyOnRequest FlagIrrelevant
PROPERTY Terminates
CHECK_DEADLOCK FALSE
