CONSTANTS
U <- TraceU
Rule <- ARule
Pow <- APow
HasPow <- AHasPow
Regs <- TraceRegs
Fit <- TraceFit
SPECIFICATION Spec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
