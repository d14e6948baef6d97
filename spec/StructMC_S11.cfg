SPECIFICATION Spec
CONSTANTS Group = "S11"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
