SPECIFICATION Spec
CONSTANTS Group = "B04"  Deep = FALSE
INVARIANTS Implied
