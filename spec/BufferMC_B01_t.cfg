SPECIFICATION Spec
CONSTANTS Group = "B01"  Deep = TRUE
INVARIANTS Implied
