SPECIFICATION Spec
CONSTANTS
  THREADS = 3
  CALLS = 2
  SWITCHES = 4
  LOCK = TRUE
  RECHECK = TRUE
  OWN = TRUE
INVARIANTS SameInstance RightClass OneEach
