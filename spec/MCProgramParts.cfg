SPECIFICATION Spec
VIEW View
INVARIANTS Sound Agrees
PROPERTY Monotone
CHECK_DEADLOCK FALSE
