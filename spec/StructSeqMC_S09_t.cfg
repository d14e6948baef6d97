SPECIFICATION Spec
CONSTANTS Group = "S09"  Depth = 4
PROPERTIES OnlyNamed
INVARIANTS FreshIsDeclared InOrder
