SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3}
 Bytes = {1, 2}
 MaxLen = 2
 Cap = 4
 Slack = 0
INVARIANTS Holds Within Apart
CHECK_DEADLOCK FALSE
