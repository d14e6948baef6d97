SPECIFICATION Spec
CONSTANTS P = 4  L = 3  B = 3
INVARIANTS OverlapLaw LengthLaw ReachLaw EndLaw StepLaw NameLaw
