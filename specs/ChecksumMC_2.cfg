SPECIFICATION Spec
CONSTANTS
  ALPHABET = {0, 1, 127, 128, 165, 255}
  MAXLEN = 4
INVARIANTS Agree Residue Complements Detects
