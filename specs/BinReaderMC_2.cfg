SPECIFICATION Spec
CONSTANTS
  ALPHABET = {0, 1, 127, 128, 255}
  MAXLEN = 4
INVARIANTS Inside Progress Signs
