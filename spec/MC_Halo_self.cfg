SPECIFICATION Spec
INVARIANTS Legal Result 
CONSTANTS NP = 1 S = 3 T = 3 StName = "lap" Mutant = "none" Rec = FALSE
