SPECIFICATION Spec
INVARIANTS SlopeRight ExactPowers Mirror PeakRight LeastSquares Parabola Near
PROPERTY Terminates
CHECK_DEADLOCK FALSE
