SPECIFICATION Spec
CONSTANTS
 Vals = {0, 1, 2, 3}
 Encs = {1, 2}
 MaxOps = 5
INVARIANTS Sound Exact
