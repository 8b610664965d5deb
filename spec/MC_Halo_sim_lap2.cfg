SPECIFICATION Spec
INVARIANTS Legal Result Export
CONSTANTS NP = 2 S = 2 T = 2 StName = "lap" Mutant = "none" Rec = TRUE
