SPECIFICATION Spec
CONSTANTS Pubs = {1, 2, 3}
 MaxVal = 6
 How = "cas"
 Ignore = TRUE
INVARIANTS Blocked Kept OnlyFrozenByFreezer SnapshotIsCurrent
PROPERTY Monotone
CHECK_DEADLOCK FALSE
