SPECIFICATION Spec
INVARIANTS Sound Clean PerSide Complete
CONSTANTS NR = 2 NF = 1 MaxOff = 2 Mutant = "noguard"
