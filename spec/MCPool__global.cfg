SPECIFICATION Spec
CONSTANTS Groups = {"P1","PMw","P2","P2MM","P4","P4M","D4","D4h","O"} Ns = {1,2} Ks = {1} Ss = {1} ModesC = {"valid"} Allow = FALSE OddToo = FALSE
INVARIANTS GlobalInvariant
CHECK_DEADLOCK FALSE
