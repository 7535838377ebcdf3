CONSTANTS
ES <- TraceES
HRegs <- TraceHRegs
SPECIFICATION Spec
INVARIANT Sound
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
