SPECIFICATION Spec
CONSTANTS Group = "S06"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
