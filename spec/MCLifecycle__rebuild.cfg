SPECIFICATION Spec
CONSTANTS Ids = {"a", "b"} Configs = {"c"} Steps = 14 Rebuild = TRUE
  Ops = {"new", "build", "refusebuild", "load", "call:eager", "call:jit", "call:stateless", "freeze", "shape", "refuse:eager", "recreate", "drop"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
