SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTANT Digit = {0, 1, 2, 64, 128, 255, 96}
INVARIANT Sane Shown
