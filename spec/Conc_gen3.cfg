SPECIFICATION Spec
CONSTANTS
  Procs = {0, 1, 2}
  Points = 12
  MaxSwitch = 3
  Shared = FALSE
  Emit = TRUE
INVARIANT NonInterference EmitPlan
CHECK_DEADLOCK FALSE
