SPECIFICATION LiveSpec
CONSTANTS SF = 4
 PF = 2
 Duration = 2
 MaxFrames = 100
CHECK_DEADLOCK FALSE
PROPERTY StepsEnd
