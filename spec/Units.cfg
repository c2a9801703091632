SPECIFICATION Spec
CONSTANTS
  Compilers = {0, 1}
  Standards = {11, 14, 17, 20, 23}
  Levels = {0, 1, 2, 3}
  Includes = {0, 1, 2}
  Asserts = {0, 1}
  MaxUnits = 2
  Linkage = "inline"
  Emit = TRUE
INVARIANTS
  OneDefinition
CHECK_DEADLOCK FALSE
