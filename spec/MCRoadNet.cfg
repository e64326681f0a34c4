SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Right Leads InOrder
