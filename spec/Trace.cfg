INIT TraceInit
NEXT TraceNext
INVARIANT TraceVerdict
CHECK_DEADLOCK FALSE
