SPECIFICATION Spec
INVARIANTS ExistsInv TilingInv CoverInv OptInv TorusInv PermInv
CONSTANTS MaxND = 3 MaxDim = 4 MaxP = 16 Mutant = "none"
CHECK_DEADLOCK FALSE
