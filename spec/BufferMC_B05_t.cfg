SPECIFICATION Spec
CONSTANTS Group = "B05"  Deep = TRUE
INVARIANTS Implied
