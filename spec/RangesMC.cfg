SPECIFICATION Spec
CONSTANTS P = 3  L = 3  B = 2
INVARIANTS OverlapLaw LengthLaw ReachLaw EndLaw StepLaw NameLaw
