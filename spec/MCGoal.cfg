SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Symmetric Perfect SpeedIsFree Closer Triangle Near2 HitNever
