SPECIFICATION Spec
CONSTANTS Group = "S02"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
