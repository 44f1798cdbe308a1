SPECIFICATION Spec
INVARIANTS Faithful OnlyFor Canonical
PROPERTY FailFast
CHECK_DEADLOCK FALSE
