CONSTANTS
VRegs <- TraceVRegs
SparseRegs <- TraceSparse
Size <- TraceSize
SPECIFICATION Spec
INVARIANT StoredOk
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
