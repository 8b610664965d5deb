SPECIFICATION Spec
INVARIANTS Legal Result 
CONSTANTS NP = 2 S = 2 T = 1 StName = "wide" Mutant = "ghost" Rec = FALSE
