SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT R = 4
INVARIANTS ProductSound ProductTight ProductNotWild ScaleExact DiffExact NegativeExact IntegratorSound
