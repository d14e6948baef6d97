SPECIFICATION Spec
CONSTANTS Group = "B08"  Deep = TRUE
INVARIANTS Implied
