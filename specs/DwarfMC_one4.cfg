SPECIFICATION Spec
CONSTANT MaxDies = 4
CONSTANT MaxUnits = 1
CONSTANT Templates = {2, 3, 4, 5, 6, 7, 8}
INVARIANT Inverse Sane Shown
