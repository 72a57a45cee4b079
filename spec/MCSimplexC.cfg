SPECIFICATION Spec
CONSTANTS
  NUser = 3
  Tableaus <- cTableaus
  Bnds <- cBnds
  LitOf <- cLitOf
  Objs = {0}
  Stores = {"no", "partial"}
  Depth = 3
INVARIANTS Equations Columns Bounds Accepted Refused Terminates
CHECK_DEADLOCK FALSE
