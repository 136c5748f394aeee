SPECIFICATION Spec
CONSTANTS Kinds = {"convT"} Groups = {"PMw","P4"} Ns = {2} Ks = {1,2,3} Ss = {1,2} Ds = {1} ModesC = {"valid","same","valid_equiv","same_equiv"} Grps = {TRUE,FALSE} Allow = FALSE
INVARIANTS Equivariant
CHECK_DEADLOCK FALSE
