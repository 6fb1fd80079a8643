SPECIFICATION Spec
CONSTANTS
  BYTES = {0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255}
  MAXLEN = 4
  MAXMAG = 3
INVARIANTS Inverse Shortest
