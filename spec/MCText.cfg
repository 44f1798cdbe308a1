SPECIFICATION Spec
VIEW View
INVARIANTS InSpan Segmented Renamed Derived Residues
CHECK_DEADLOCK FALSE
