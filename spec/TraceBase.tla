------------------------------ MODULE TraceBase ------------------------------
(* A trace recorded from the real code: one JSON object per line, the first  *)
(* line being a header. The file's name is taken from the environment.       *)
EXTENDS Json, IOUtils, TLC, Integers, Sequences

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Header == Trace[1]

VARIABLE lineNo      \* number of the next line to be explained

Is(e) == Trace[lineNo].e = e
More == lineNo <= Len(Trace)
Step == lineNo' = lineNo + 1
LInit == lineNo = 2

\* every line after the header is one step of the specification
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
