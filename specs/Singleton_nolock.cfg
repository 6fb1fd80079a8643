SPECIFICATION Spec
CONSTANTS
  THREADS = 2
  CALLS = 1
  SWITCHES = 99
  LOCK = FALSE
  RECHECK = TRUE
  OWN = TRUE
INVARIANTS SameInstance RightClass OneEach
