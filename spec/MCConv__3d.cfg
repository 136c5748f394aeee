SPECIFICATION Spec
CONSTANTS Kinds = {"conv"} Groups = {"D4","D4h","O"} Ns = {2,3} Ks = {1,2} Ss = {1} Ds = {1} ModesC = {"valid","same","valid_equiv","same_equiv"} Grps = {FALSE} Allow = FALSE
INVARIANTS Equivariant
CHECK_DEADLOCK FALSE
