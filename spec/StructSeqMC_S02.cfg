SPECIFICATION Spec
CONSTANTS Group = "S02"  Depth = 3
PROPERTIES OnlyNamed
INVARIANTS FreshIsDeclared InOrder
