SPECIFICATION Spec
INVARIANTS AlwaysTrue AllRoutes Finite NoTwice CandidatesTrue
CHECK_DEADLOCK FALSE
