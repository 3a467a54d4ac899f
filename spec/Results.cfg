SPECIFICATION Spec
INVARIANTS Ordered Isolated Summary Histogram
PROPERTY Terminates
CHECK_DEADLOCK FALSE
