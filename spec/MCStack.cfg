SPECIFICATION Spec
CONSTANTS Groups = {"P1","PMw","P2","P4"} Ns = {3} Ks = {2,3} Ss = {1,2} ModesC = {"valid_equiv","same_equiv"} Seconds = {"conv","pool","convT"} Lifts = {TRUE}
INVARIANTS Equivariant
CHECK_DEADLOCK FALSE
