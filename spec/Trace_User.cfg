CONSTANTS
U <- TraceU
Rule <- URule
Pow <- UPow
HasPow <- UHasPow
ConjPoly <- UConjPoly
MayRefuse <- UMayRefuse
Regs <- TraceRegs
Fit <- TraceFit
SPECIFICATION Spec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
