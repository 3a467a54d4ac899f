SPECIFICATION Spec
INVARIANTS Order Multiplicity Matches Error
PROPERTY Ends
CHECK_DEADLOCK FALSE
