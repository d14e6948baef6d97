SPECIFICATION Spec
CONSTANTS Group = "S10"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
