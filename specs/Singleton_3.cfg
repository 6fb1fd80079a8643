SPECIFICATION Spec
CONSTANTS
  THREADS = 3
  CALLS = 1
  SWITCHES = 3
  LOCK = TRUE
  RECHECK = TRUE
  OWN = TRUE
INVARIANTS SameInstance RightClass OneEach
