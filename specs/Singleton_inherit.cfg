SPECIFICATION Spec
CONSTANTS
  THREADS = 2
  CALLS = 1
  SWITCHES = 99
  LOCK = TRUE
  RECHECK = TRUE
  OWN = FALSE
INVARIANTS SameInstance RightClass OneEach
