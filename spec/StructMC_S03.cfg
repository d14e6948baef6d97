SPECIFICATION Spec
CONSTANTS Group = "S03"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
