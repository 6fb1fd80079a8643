SPECIFICATION Spec
CONSTANTS
  THREADS = 2
  CALLS = 1
  SWITCHES = 99
  LOCK = TRUE
  RECHECK = TRUE
  OWN = TRUE
INVARIANTS SameInstance RightClass OneEach
