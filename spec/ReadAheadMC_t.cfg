SPECIFICATION Spec
CONSTANTS N = 8  D = 6
INVARIANT InOrder
