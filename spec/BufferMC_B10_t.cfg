SPECIFICATION Spec
CONSTANTS Group = "B10"  Deep = TRUE
INVARIANTS Implied
