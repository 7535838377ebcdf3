CONSTANTS
ES <- TraceES
Gns <- TraceGns
UserActs <- TraceActs
SPECIFICATION Spec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
