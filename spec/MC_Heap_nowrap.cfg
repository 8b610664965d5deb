CONSTANTS MaxN = 4  Rounds = 4  Mutant = "nowrap"
SPECIFICATION Spec
INVARIANTS Sound Even Nothing
