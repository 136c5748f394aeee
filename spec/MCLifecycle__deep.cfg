SPECIFICATION Spec
CONSTANTS Ids = {"a", "b"} Configs = {"c", "d"} Steps = 9 Rebuild = TRUE
  Ops = {"new", "build", "refusebuild", "load", "call:eager", "call:jit", "call:stateless", "freeze", "shape", "refuse:eager", "refuse:jit", "fail:eager", "fail:jit", "observe", "recreate", "drop"}
VIEW HistView
INVARIANTS Function
PROPERTIES Stable Configured
CHECK_DEADLOCK FALSE
