SPECIFICATION Spec
INVARIANTS Sound
