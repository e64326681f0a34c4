SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InRange CrashCosts FasterPays RightPays RoundRange TwoRange CrossRange GoalRange
