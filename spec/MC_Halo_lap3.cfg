SPECIFICATION Spec
INVARIANTS Legal Result 
CONSTANTS NP = 3 S = 1 T = 2 StName = "lap" Mutant = "none" Rec = FALSE
