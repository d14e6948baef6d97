SPECIFICATION Spec
CONSTANTS Group = "S05"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
