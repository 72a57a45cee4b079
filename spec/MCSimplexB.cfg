SPECIFICATION Spec
CONSTANTS
  NUser = 2
  Tableaus <- cTableaus
  Bnds <- cBnds
  LitOf <- cLitOf
  Objs = {5}
  Stores = {"no", "partial", "total"}
  Depth = 3
INVARIANTS Equations Columns Bounds Accepted Refused Terminates
PROPERTY Optimal
CHECK_DEADLOCK FALSE
