SPECIFICATION Spec
CONSTANTS Nodes = {1, 2, 3}
 Threads = {1, 2}
 Fault = "none"
INVARIANTS Once InTime Lists AllBack
CHECK_DEADLOCK FALSE
