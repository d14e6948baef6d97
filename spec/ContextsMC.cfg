SPECIFICATION Spec
CONSTANT FULL = FALSE
INVARIANT GivenWins
PROPERTIES Frame ReadOnly
