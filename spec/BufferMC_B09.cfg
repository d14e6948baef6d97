SPECIFICATION Spec
CONSTANTS Group = "B09"  Deep = FALSE
INVARIANTS Implied
