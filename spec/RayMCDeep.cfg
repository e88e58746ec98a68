SPECIFICATION Spec
CONSTANTS Us <- UsD Hs <- HsD Xs <- XsD Zs <- ZsD MaxLay = 3
INVARIANTS NonNegative LowerBound UpperBound Reciprocal Vertical Fermat Split
PROPERTY Grows
