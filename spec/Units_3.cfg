SPECIFICATION Spec
CONSTANTS
  Compilers = {0, 1}
  Standards = {11, 14, 17, 20, 23}
  Levels = {0, 2}
  Includes = {0}
  Asserts = {0}
  MaxUnits = 3
  Linkage = "inline"
  Emit = FALSE
INVARIANTS
  OneDefinition
CHECK_DEADLOCK FALSE
