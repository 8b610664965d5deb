SPECIFICATION Spec
INVARIANTS Legal Result Export
CONSTANTS NP = 3 S = 2 T = 2 StName = "wide2" Mutant = "none" Rec = TRUE
