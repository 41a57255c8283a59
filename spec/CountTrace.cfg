SPECIFICATION TraceSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT CheckCount = TRUE
