SPECIFICATION Spec
INVARIANT NoRace
CONSTANTS N = 3
 T = 2
 Steps = 1
 VARIANT = "inplace"
