CONSTANTS MaxN = 4  Rounds = 4  Mutant = "ok"
SPECIFICATION Spec
INVARIANTS Sound Even Nothing
