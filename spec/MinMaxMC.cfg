SPECIFICATION Spec
CONSTANT FULL = FALSE
INVARIANTS Wf Laws Assoc
