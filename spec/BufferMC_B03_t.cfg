SPECIFICATION Spec
CONSTANTS Group = "B03"  Deep = TRUE
INVARIANTS Implied
