SPECIFICATION Spec
CONSTANTS Group = "B03"  Deep = FALSE
INVARIANTS Implied
