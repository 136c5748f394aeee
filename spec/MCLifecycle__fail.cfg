SPECIFICATION Spec
CONSTANTS Ids = {"a", "b"} Configs = {"c"} Steps = 14 Rebuild = FALSE
  Ops = {"new", "build", "refusebuild", "load", "call:eager", "call:jit", "call:stateless", "freeze", "refuse:eager", "refuse:jit", "fail:eager", "fail:jit", "observe", "recreate"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
