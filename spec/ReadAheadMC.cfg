SPECIFICATION Spec
CONSTANTS N = 6  D = 5
INVARIANT InOrder
