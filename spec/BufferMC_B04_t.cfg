SPECIFICATION Spec
CONSTANTS Group = "B04"  Deep = TRUE
INVARIANTS Implied
