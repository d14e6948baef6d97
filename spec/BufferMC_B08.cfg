SPECIFICATION Spec
CONSTANTS Group = "B08"  Deep = FALSE
INVARIANTS Implied
