SPECIFICATION Spec
CONSTANTS Kinds = {"conv"} Groups = {"P2"} Ns = {3,4} Ks = {1,2,3} Ss = {1,2} Ds = {1} ModesC = {"valid","same"} Grps = {FALSE} Allow = TRUE
INVARIANTS Equivariant
CHECK_DEADLOCK FALSE
