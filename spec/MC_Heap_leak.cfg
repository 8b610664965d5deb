CONSTANTS MaxN = 4  Rounds = 4  Mutant = "leak"
SPECIFICATION Spec
INVARIANTS Even
