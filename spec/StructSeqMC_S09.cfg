SPECIFICATION Spec
CONSTANTS Group = "S09"  Depth = 3
PROPERTIES OnlyNamed
INVARIANTS FreshIsDeclared InOrder
