INIT TraceInit
NEXT TraceNext
CHECK_DEADLOCK FALSE
