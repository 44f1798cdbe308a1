SPECIFICATION Spec
INVARIANTS Equality Built
PROPERTY Congruent
CHECK_DEADLOCK FALSE
