SPECIFICATION Spec
CONSTANTS SL = 2 Bytes = {0, 1, 255} MaxLen = 3 UseLen = FALSE
INVARIANT OrderPreserved Faithful Recovers
CHECK_DEADLOCK FALSE
