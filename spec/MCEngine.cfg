SPECIFICATION Spec
INVARIANT RegistriesAgree
PROPERTY FailuresChangeNothing
CHECK_DEADLOCK FALSE
