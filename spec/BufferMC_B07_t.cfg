SPECIFICATION Spec
CONSTANTS Group = "B07"  Deep = TRUE
INVARIANTS Implied
