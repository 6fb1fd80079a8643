SPECIFICATION Spec
CONSTANTS
  ALPHABET = {0, 64, 127, 128, 255}
  MAXLEN = 5
INVARIANTS Inside Progress Signs
