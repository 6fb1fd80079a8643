SPECIFICATION Spec
CONSTANTS
  ROWS = {"a", "b"}
  MAXROWS = 2
  TAILS = {0, 1, 15}
  ADDRS = {0, 1, 2, 3}
  FRESH = FALSE
INVARIANT Faithful
