SPECIFICATION Spec
CONSTANTS Group = "S10"  Depth = 4
PROPERTIES OnlyNamed
INVARIANTS FreshIsDeclared InOrder
