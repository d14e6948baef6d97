SPECIFICATION Spec
CONSTANTS Group = "S09"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
