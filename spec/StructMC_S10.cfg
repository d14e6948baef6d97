SPECIFICATION Spec
CONSTANTS Group = "S10"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
