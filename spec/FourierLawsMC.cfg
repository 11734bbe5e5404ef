SPECIFICATION Spec
INVARIANTS LawMove LawTurn LawMirror LawConj LawZero LawCut LawBound
CHECK_DEADLOCK FALSE
