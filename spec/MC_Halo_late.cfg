SPECIFICATION Spec
INVARIANTS Legal Result 
CONSTANTS NP = 2 S = 2 T = 2 StName = "upwind" Mutant = "late" Rec = FALSE
