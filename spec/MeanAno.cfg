SPECIFICATION Spec
INVARIANTS Range Linear ZeroAtPeri Local
CHECK_DEADLOCK FALSE
