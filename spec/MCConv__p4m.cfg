SPECIFICATION Spec
CONSTANTS Kinds = {"conv"} Groups = {"P2MM","PMh","P4M"} Ns = {3} Ks = {2,3} Ss = {1,2} Ds = {1} ModesC = {"valid","same","valid_equiv","same_equiv"} Grps = {TRUE,FALSE} Allow = FALSE
INVARIANTS Equivariant
CHECK_DEADLOCK FALSE
