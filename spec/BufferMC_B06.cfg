SPECIFICATION Spec
CONSTANTS Group = "B06"  Deep = FALSE
INVARIANTS Implied
