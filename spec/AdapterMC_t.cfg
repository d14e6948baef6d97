SPECIFICATION Spec
CONSTANTS Depth = 3  All = FALSE
INVARIANTS Sizes Again RoundTrip
PROPERTIES Takes
