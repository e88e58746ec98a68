SPECIFICATION Spec
CONSTANTS N = 2
 MaxR = 3
 MaxV = 3
 MaxD = 2
 MaxK = 3
 Wrong = 0
INVARIANTS Energy Chord EulerOk ScaleOk
