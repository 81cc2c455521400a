SPECIFICATION Spec
INVARIANTS Total Exact Unordered Irrelevant
CHECK_DEADLOCK FALSE
