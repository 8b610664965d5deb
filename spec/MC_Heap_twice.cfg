CONSTANTS MaxN = 4  Rounds = 4  Mutant = "twice"
SPECIFICATION Spec
INVARIANTS Sound Even Nothing
