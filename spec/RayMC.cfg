SPECIFICATION Spec
CONSTANTS Us <- UsQ Hs <- HsQ Xs <- XsQ Zs <- ZsQ MaxLay = 2
INVARIANTS NonNegative LowerBound UpperBound Reciprocal Vertical Fermat Split
PROPERTY Grows
