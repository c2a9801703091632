SPECIFICATION Spec
CONSTANTS
  Procs = {0, 1}
  Points = 48
  MaxSwitch = 2
  Shared = FALSE
  Emit = TRUE
INVARIANT NonInterference EmitPlan
CHECK_DEADLOCK FALSE
