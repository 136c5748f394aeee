SPECIFICATION Spec
CONSTANTS Kinds = {"conv","convT"} Groups = {"P1","PMw","PMh","P2","P2MM","P4","P4M","D4"} Ns = {3} Ks = {1,2,3} Ss = {1} Ds = {1} ModesC = {"valid"} Grps = {TRUE,FALSE} Allow = FALSE
INVARIANTS KernelTransformed
CHECK_DEADLOCK FALSE
