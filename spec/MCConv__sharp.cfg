SPECIFICATION Spec
CONSTANTS Kinds = {"conv"} Groups = {"P2","PMh","P4","P4M"} Ns = {3,4} Ks = {1,2,3} Ss = {1,2,3} Ds = {1,2} ModesC = {"valid","same"} Grps = {FALSE} Allow = TRUE
INVARIANTS Sharp
CHECK_DEADLOCK FALSE
