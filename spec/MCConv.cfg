SPECIFICATION Spec
CONSTANTS Kinds = {"conv"} Groups = {"P1","PMw","P2","P4"} Ns = {3,4} Ks = {1,2,3} Ss = {1,2} Ds = {1,2} ModesC = {"valid","same","valid_equiv","same_equiv"} Grps = {TRUE,FALSE} Allow = FALSE
INVARIANTS Equivariant
CHECK_DEADLOCK FALSE
