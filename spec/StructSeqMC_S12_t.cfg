SPECIFICATION Spec
CONSTANTS Group = "S12"  Depth = 4
PROPERTIES OnlyNamed
INVARIANTS FreshIsDeclared InOrder
