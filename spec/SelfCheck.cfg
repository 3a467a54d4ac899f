SPECIFICATION Spec
INVARIANTS Exact WeaveOk CloseIsNearHalf RangeOk Emitted
CHECK_DEADLOCK FALSE
