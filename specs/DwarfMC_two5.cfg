SPECIFICATION Spec
CONSTANT MaxDies = 5
CONSTANT MaxUnits = 2
CONSTANT Templates = {2, 7, 5}
INVARIANT Inverse Sane Shown
