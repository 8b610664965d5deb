CONSTANTS MaxN = 4  Rounds = 4  Mutant = "late"
SPECIFICATION Spec
INVARIANTS Sound Even Nothing
