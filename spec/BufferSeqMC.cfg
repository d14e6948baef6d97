SPECIFICATION Spec
CONSTANTS Depth = 3  All = FALSE
INVARIANTS Declared Unpacked PackTwice
PROPERTIES OnlyNamed Quiet
