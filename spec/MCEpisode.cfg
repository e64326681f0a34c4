SPECIFICATION Spec
CONSTANTS SF = 7
 PF = 2
 Duration = 3
 MaxFrames = 12
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS ForwardOnce FirstFrame FullSteps Aligned Counting
