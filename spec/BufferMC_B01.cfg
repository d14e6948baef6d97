SPECIFICATION Spec
CONSTANTS Group = "B01"  Deep = FALSE
INVARIANTS Implied
