SPECIFICATION Spec
CONSTANTS Group = "S01"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
