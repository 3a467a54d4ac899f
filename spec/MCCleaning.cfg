SPECIFICATION Spec
INVARIANTS NothingElse AtMostOneBeyond NoLateJump Regular Agree
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
