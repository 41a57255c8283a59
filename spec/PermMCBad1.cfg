SPECIFICATION Spec
CONSTANTS W = 4 Items = {1, 2, 3, 4} Mistake = "remove"
INVARIANT IsPermutation Content
CHECK_DEADLOCK FALSE
