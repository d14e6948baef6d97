SPECIFICATION Spec
CONSTANTS Group = "B05"  Deep = FALSE
INVARIANTS Implied
