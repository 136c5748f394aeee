SPECIFICATION Spec
CONSTANTS Kinds = {"conv","convT","pool","global"} Groups = {"P1","PMw","P4"} Ns = {2} Ks = {1,2} Ss = {1,2} ModesC = {"valid_equiv","same_equiv","valid"} Grps = {TRUE, FALSE} Chs = {2}
INVARIANTS SameAcceptance Agree
CHECK_DEADLOCK FALSE
