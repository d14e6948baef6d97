SPECIFICATION Spec
CONSTANTS Group = "S12"  Depth = 3
PROPERTIES OnlyNamed
INVARIANTS FreshIsDeclared InOrder
