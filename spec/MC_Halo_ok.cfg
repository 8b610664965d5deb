SPECIFICATION Spec
INVARIANTS Legal Result 
CONSTANTS NP = 3 S = 2 T = 2 StName = "upwind" Mutant = "none" Rec = FALSE
