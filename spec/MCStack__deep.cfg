SPECIFICATION Spec
CONSTANTS Groups = {"P1","PMw","PMh","P2","P2MM","P4","P4M"} Ns = {3,4} Ks = {2,3} Ss = {1,2} ModesC = {"valid_equiv","same_equiv"} Seconds = {"conv","pool","convT"} Lifts = {TRUE, FALSE}
INVARIANTS Equivariant
CHECK_DEADLOCK FALSE
