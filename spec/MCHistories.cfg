SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Depth = 5
INVARIANTS SameHistorySameState TermsAreInjective
