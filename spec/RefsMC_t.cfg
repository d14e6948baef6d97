SPECIFICATION Spec
CONSTANTS NL = 3  NE = 3  FULL = TRUE
INVARIANTS Transparent OnceEach CycleNamed
