SPECIFICATION Spec
INVARIANTS Sound Clean PerSide Complete
CONSTANTS NR = 3 NF = 1 MaxOff = 2 Mutant = "ok"
