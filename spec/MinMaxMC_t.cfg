SPECIFICATION Spec
CONSTANT FULL = TRUE
INVARIANTS Wf Laws Assoc
