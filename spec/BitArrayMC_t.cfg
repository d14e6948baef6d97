SPECIFICATION Spec
CONSTANTS N = 18  SCH = {0, 1, 2, 4, 5, 7, 8, 10}
INVARIANTS Laws BytesFaithful
