SPECIFICATION Spec
INVARIANTS Legal Result Export
CONSTANTS NP = 4 S = 1 T = 2 StName = "lap" Mutant = "none" Rec = TRUE
