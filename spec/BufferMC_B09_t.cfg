SPECIFICATION Spec
CONSTANTS Group = "B09"  Deep = TRUE
INVARIANTS Implied
