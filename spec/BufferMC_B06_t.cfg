SPECIFICATION Spec
CONSTANTS Group = "B06"  Deep = TRUE
INVARIANTS Implied
