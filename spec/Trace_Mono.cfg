CONSTANTS
  U <- TraceU
  MRegs <- TraceMRegs
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
