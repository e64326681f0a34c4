SPECIFICATION Spec
INVARIANTS Good UnitRange
