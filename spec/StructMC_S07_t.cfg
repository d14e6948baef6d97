SPECIFICATION Spec
CONSTANTS Group = "S07"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
