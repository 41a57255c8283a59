SPECIFICATION Spec
CONSTRAINT Track
INVARIANT Counted
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
