SPECIFICATION Spec
INVARIANTS Limited Back Stops
