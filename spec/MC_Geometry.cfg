CONSTANTS D = 2 W = 1
INIT Init
NEXT Next
INVARIANTS PlaneLaws SolidLaws
CHECK_DEADLOCK FALSE
