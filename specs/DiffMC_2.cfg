SPECIFICATION Spec
CONSTANTS
  ALPHABET = {0, 1, 255}
  MAXLEN = 4
  EXTRA = 4
INVARIANTS Correct
