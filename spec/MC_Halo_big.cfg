SPECIFICATION Spec
INVARIANTS Legal Result 
CONSTANTS NP = 4 S = 1 T = 2 StName = "upwind" Mutant = "none" Rec = FALSE
