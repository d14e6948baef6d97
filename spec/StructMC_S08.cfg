SPECIFICATION Spec
CONSTANTS Group = "S08"  Deep = FALSE
INVARIANTS RoundTrip WholeRead PrefixFails InBounds ReadInBounds OrderLaw
