SPECIFICATION Spec
CONSTANTS Depth = 2  All = FALSE
INVARIANTS Sizes Again RoundTrip
PROPERTIES Takes
