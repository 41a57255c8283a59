SPECIFICATION Spec
CONSTANTS SL = 2 Bytes = {0, 1, 255} MaxLen = 5 UseLen = TRUE
INVARIANT OrderPreserved Faithful Recovers
CHECK_DEADLOCK FALSE
