SPECIFICATION Spec
CONSTANTS
  ALPHABET = {0, 1, 2, 15, 16, 127, 128, 165, 254, 255}
  MAXLEN = 5
INVARIANTS Agree Residue Complements Detects
