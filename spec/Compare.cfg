SPECIFICATION Spec
INVARIANTS Symmetric Inside Complete DisjointIsEmpty
CHECK_DEADLOCK FALSE
