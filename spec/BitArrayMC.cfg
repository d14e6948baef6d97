SPECIFICATION Spec
CONSTANTS N = 11  SCH = {0, 1, 2}
INVARIANTS Laws BytesFaithful
