SPECIFICATION Spec
CONSTANTS Group = "S11"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
