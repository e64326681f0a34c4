SPECIFICATION Spec
CONSTANTS Frames = 30
 Horizon = 300
INVARIANTS SpeedBetween Settles Overshoot Forth OnCurve
CHECK_DEADLOCK FALSE
