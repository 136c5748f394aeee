SPECIFICATION Spec
CONSTANTS Groups = {"P1","PMw","PMh","P2","P4","P4M"} Ns = {2,3,4} Ks = {1,2,3} Ss = {1,2,3} ModesC = {"valid","same","valid_equiv","same_equiv"} Allow = FALSE OddToo = FALSE
INVARIANTS Equivariant Partition
CHECK_DEADLOCK FALSE
