SPECIFICATION Spec
CONSTANTS
  NUser = 2
  Tableaus <- cTableaus
  Bnds <- cBnds
  LitOf <- cLitOf
  Objs = {0}
  Stores = {"no"}
  Depth = 3
INVARIANTS Equations Columns Bounds Accepted Refused Terminates
CHECK_DEADLOCK FALSE
