SPECIFICATION Spec
CONSTANTS NL = 3  NE = 2  FULL = FALSE
INVARIANTS Transparent OnceEach CycleNamed
