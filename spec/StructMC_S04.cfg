SPECIFICATION Spec
CONSTANTS Group = "S04"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
