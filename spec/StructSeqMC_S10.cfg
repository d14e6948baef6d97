SPECIFICATION Spec
CONSTANTS Group = "S10"  Depth = 3
PROPERTIES OnlyNamed
INVARIANTS FreshIsDeclared InOrder
