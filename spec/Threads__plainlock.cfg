SPECIFICATION Spec
CONSTANTS Threads = {t1, t2} Calls = 1 Layers = {a, b} Nests = TRUE Locking = "all" Reentrant = FALSE Finally = TRUE Failures = FALSE
INVARIANTS NoDeadlock
CHECK_DEADLOCK FALSE
