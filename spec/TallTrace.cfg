SPECIFICATION Spec
CONSTRAINT Track
INVARIANT Whole Made
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
