SPECIFICATION Spec
INVARIANTS Legal Result 
CONSTANTS NP = 3 S = 2 T = 1 StName = "wide2" Mutant = "none" Rec = FALSE
