SPECIFICATION Spec
CONSTANTS Group = "S05"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
