SPECIFICATION Spec
CONSTANTS Group = "S06"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
