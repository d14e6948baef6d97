SPECIFICATION Spec
CONSTANT FULL = TRUE
INVARIANT GivenWins
PROPERTIES Frame ReadOnly
