SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3} Calls = 3 Layers = {a, b, c} Nests = TRUE Locking = "all" Reentrant = TRUE Finally = TRUE Failures = TRUE
INVARIANTS RightWeights NoTrace NoDeadlock
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
