SPECIFICATION Spec
INVARIANTS NonInterference Boundary KeepAll Zero
CHECK_DEADLOCK FALSE
