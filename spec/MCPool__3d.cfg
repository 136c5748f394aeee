SPECIFICATION Spec
CONSTANTS Groups = {"D4","D4h","O"} Ns = {2} Ks = {1,2} Ss = {1,2} ModesC = {"valid","same","valid_equiv","same_equiv"} Allow = FALSE OddToo = FALSE
INVARIANTS Equivariant Partition
CHECK_DEADLOCK FALSE
