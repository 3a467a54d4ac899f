SPECIFICATION Spec
INVARIANTS MidsSorted OkMeans KindsFollow Emitted
CHECK_DEADLOCK FALSE
