SPECIFICATION Spec
CONSTANTS Group = "S03"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
