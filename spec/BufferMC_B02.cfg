SPECIFICATION Spec
CONSTANTS Group = "B02"  Deep = FALSE
INVARIANTS Implied
