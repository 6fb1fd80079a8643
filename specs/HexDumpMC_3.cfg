SPECIFICATION Spec
CONSTANTS
  ROWS = {"a", "b", "z"}
  MAXROWS = 5
  TAILS = {0, 1, 15}
  ADDRS = {0, 1, 2, 3}
  FRESH = TRUE
INVARIANT Faithful
