SPECIFICATION Spec
CONSTANTS D = 2
 Amp = 1
 Steps = 5
 Wrong = 0
INVARIANTS ExplosionOk DDOk ThirdOk FourOk
