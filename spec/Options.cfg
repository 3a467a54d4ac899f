SPECIFICATION Spec
INVARIANTS Completed Idempotent KeyByKey Found Prominences Stricter Wider Apart Alternate
PROPERTY Terminates
CHECK_DEADLOCK FALSE
