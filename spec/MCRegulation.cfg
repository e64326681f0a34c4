SPECIFICATION Spec
CONSTANT Lasts = 2
INVARIANTS Justified OnePerConflict Stops SomeoneGoes FreeAgain Resumes Bounded
CHECK_DEADLOCK FALSE
