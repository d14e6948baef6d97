SPECIFICATION Spec
CONSTANTS Group = "B07"  Deep = FALSE
INVARIANTS Implied
