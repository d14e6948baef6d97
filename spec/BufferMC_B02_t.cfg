SPECIFICATION Spec
CONSTANTS Group = "B02"  Deep = TRUE
INVARIANTS Implied
