SPECIFICATION Spec
CONSTANTS Group = "S04"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
