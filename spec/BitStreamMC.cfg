SPECIFICATION Spec
CONSTANTS NB = 3  WS = {1, 2, 3, 5, 7, 8, 9, 12, 16, 17}  D = 3
INVARIANTS Back Whole
