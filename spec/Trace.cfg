CONSTANTS Outcome <- Out  St0 <- Init0
INIT TraceInit
NEXT TraceNext
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
