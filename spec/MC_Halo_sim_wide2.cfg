SPECIFICATION Spec
INVARIANTS Legal Result Export
CONSTANTS NP = 2 S = 3 T = 2 StName = "wide" Mutant = "none" Rec = TRUE
