SPECIFICATION Spec
CONSTANTS MaxN = 16 MaxK = 8 MaxS = 6
INVARIANTS ClosedForm Complete Minimal BothSides SharpCheck EquivSymmetric OnlyThat AllowedAddsNothing EquivIgnoresAllow
CHECK_DEADLOCK FALSE
