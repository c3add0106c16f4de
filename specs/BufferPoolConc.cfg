SPECIFICATION Spec
CONSTANTS
  Users = {u1, u2, u3}
  Chunks = {c1, c2}
  Cap = 1
  Faults = 2
INVARIANTS OneFetch Complete PinsRight BusyRight Fits
PROPERTY NoHang
CHECK_DEADLOCK FALSE
