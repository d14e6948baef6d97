SPECIFICATION Spec
CONSTANTS Group = "S01"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
