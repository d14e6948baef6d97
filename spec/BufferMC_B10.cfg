SPECIFICATION Spec
CONSTANTS Group = "B10"  Deep = FALSE
INVARIANTS Implied
