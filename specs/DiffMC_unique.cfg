SPECIFICATION Spec
CONSTANTS
  ALPHABET = {0, 1}
  MAXLEN = 2
  EXTRA = 2
INVARIANTS Correct Unique
