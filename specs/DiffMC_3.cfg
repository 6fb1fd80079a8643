SPECIFICATION Spec
CONSTANTS
  ALPHABET = {0, 1, 255}
  MAXLEN = 5
  EXTRA = 2
INVARIANTS Correct
