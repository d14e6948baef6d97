SPECIFICATION Spec
CONSTANTS Group = "S08"  Deep = TRUE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
