SPECIFICATION Spec
CONSTANTS Nodes = {1, 2, 3}
 Threads = {1, 2}
 Fault = "now"
INVARIANTS Once InTime AllBack
CHECK_DEADLOCK FALSE
