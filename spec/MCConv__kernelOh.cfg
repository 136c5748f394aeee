SPECIFICATION Spec
CONSTANTS Kinds = {"conv","convT"} Groups = {"D4","D4h","O","Oh"} Ns = {3} Ks = {2,3} Ss = {1} Ds = {1} ModesC = {"valid"} Grps = {TRUE,FALSE} Allow = FALSE
INVARIANTS KernelTransformed
CHECK_DEADLOCK FALSE
