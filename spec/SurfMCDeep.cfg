SPECIFICATION Spec
CONSTANTS N = 3
 MaxR = 3
 MaxV = 4
 MaxD = 2
 MaxK = 5
 Wrong = 0
INVARIANTS Energy Chord EulerOk ScaleOk
