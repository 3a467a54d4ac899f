SPECIFICATION Spec
INVARIANTS Once Acceptable SplineIff Maximal Determined NeverBelowOne ApoStartsFromPeri SameAsOperator Emitted
PROPERTY Terminates
CHECK_DEADLOCK FALSE
