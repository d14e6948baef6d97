SPECIFICATION Spec
CONSTANTS Kinds = {"bits", "pbits", "lazy", "map", "default", "rest"}  Wide = 9
INVARIANTS LazyLaw BitsLaw BitsOnly PosLaw PosBack MapLaw DefaultLaw
