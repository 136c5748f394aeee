SPECIFICATION Spec
CONSTANTS Threads = {t1, t2} Calls = 2 Layers = {a} Nests = FALSE Locking = "none" Reentrant = TRUE Finally = TRUE Failures = TRUE
INVARIANTS RightWeights
CHECK_DEADLOCK FALSE
