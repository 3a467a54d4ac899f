SPECIFICATION Spec
INVARIANTS ContainsInv LongInv ReachInv ShortInv WholeInv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
