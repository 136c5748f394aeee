SPECIFICATION Spec
CONSTANTS MaxN = 40 MaxK = 16 MaxS = 12
INVARIANTS ClosedForm Complete Minimal BothSides SharpCheck EquivSymmetric OnlyThat AllowedAddsNothing EquivIgnoresAllow
CHECK_DEADLOCK FALSE
