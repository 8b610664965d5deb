SPECIFICATION Spec
INVARIANTS Sound Clean PerSide Complete
CONSTANTS NR = 2 NF = 2 MaxOff = 1 Mutant = "ok"
