SPECIFICATION Spec
CONSTANTS Group = "S07"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
