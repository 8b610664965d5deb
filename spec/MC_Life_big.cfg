SPECIFICATION Spec
INVARIANTS Sound Clean PerSide Complete
CONSTANTS NR = 2 NF = 2 MaxOff = 2 Mutant = "ok"
