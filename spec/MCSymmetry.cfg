SPECIFICATION Spec
INVARIANTS OrderOk Closed Inverses DetMult GridAction GroupAction
CHECK_DEADLOCK FALSE
