SPECIFICATION Spec
CONSTANTS Group = "S13"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
