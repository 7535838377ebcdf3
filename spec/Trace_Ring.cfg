CONSTANTS
U <- TraceU
Rule <- URule
Pow <- UPow
HasPow <- UHasPow
ConjPoly <- UConjPoly
Regs <- TraceRegs
SPECIFICATION Spec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
