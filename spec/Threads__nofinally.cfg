SPECIFICATION Spec
CONSTANTS Threads = {t1, t2} Calls = 2 Layers = {a} Nests = FALSE Locking = "all" Reentrant = TRUE Finally = FALSE Failures = TRUE
INVARIANTS NoTrace
CHECK_DEADLOCK FALSE
