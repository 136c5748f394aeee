SPECIFICATION Spec
CONSTANTS Groups = {"P2"} Ns = {2,3,4} Ks = {1,2,3} Ss = {1,2,3} ModesC = {"valid","same","valid_equiv","same_equiv"} Allow = FALSE OddToo = TRUE
INVARIANTS Equivariant
CHECK_DEADLOCK FALSE
