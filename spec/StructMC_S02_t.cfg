SPECIFICATION Spec
CONSTANTS Group = "S02"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
