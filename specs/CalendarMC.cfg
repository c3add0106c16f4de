SPECIFICATION Spec
CONSTANTS
  Starts = {1600, 1996, 1999, 2000, 2004, 3600, 3752, 3900, 3901, 3904, 3969, 3970, 3972, 3996, 3999, 4000, 4001, 4004, 4036, 4037, 4100, 4104, 4400}
INVARIANTS Agrees Begins Adds
CHECK_DEADLOCK FALSE
