SPECIFICATION Spec
CONSTANTS
    Threads = {t1, t2, t3}
    Keys = {k1, k2}
    MaxOps = 3
INVARIANTS AtMostOnce LastNever CountIsKnown Accounted CleanIsExact
PROPERTIES NeverForgotten RefusedIsNoop Completes
CHECK_DEADLOCK FALSE
