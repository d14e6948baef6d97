SPECIFICATION Spec
CONSTANTS Group = "S02"  Depth = 4
PROPERTIES OnlyNamed
INVARIANTS FreshIsDeclared InOrder
