SPECIFICATION Spec
CONSTANT MaxDies = 4
CONSTANT MaxUnits = 2
CONSTANT Templates = {2, 7}
INVARIANT Inverse Sane Shown
