SPECIFICATION Spec
INVARIANTS Pristine Functional QueriesPure
CHECK_DEADLOCK FALSE
