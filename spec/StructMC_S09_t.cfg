SPECIFICATION Spec
CONSTANTS Group = "S09"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
