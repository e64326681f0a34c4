SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS UniqueNames Joined LengthFits Symmetric
