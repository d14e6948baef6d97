SPECIFICATION Spec
CONSTANTS NB = 4  WS = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 23, 25}  D = 4
INVARIANTS Back Whole
