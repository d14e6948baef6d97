SPECIFICATION Spec
CONSTANTS Depth = 4  All = TRUE
INVARIANTS Declared Unpacked PackTwice
PROPERTIES OnlyNamed Quiet
