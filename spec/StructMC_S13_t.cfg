SPECIFICATION Spec
CONSTANTS Group = "S13"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
