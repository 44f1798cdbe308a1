SPECIFICATION Spec
VIEW View
INVARIANTS Sound Agrees Balanced
PROPERTY Monotone
CHECK_DEADLOCK FALSE
