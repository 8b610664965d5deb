SPECIFICATION Spec
INVARIANTS ExistsInv TilingInv CoverInv OptInv TorusInv PermInv
CONSTANTS MaxND = 2 MaxDim = 6 MaxP = 12 Mutant = "any"
CHECK_DEADLOCK FALSE
