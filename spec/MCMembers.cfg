SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT N = 15
INVARIANTS Contains Certain Ordered
