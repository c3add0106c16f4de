SPECIFICATION Spec
CONSTANTS
  Users = {u1, u2, u3}
  Chunks = {c1, c2, c3}
  Cap = 2
  Faults = 3
INVARIANTS OneFetch Complete PinsRight BusyRight Fits
PROPERTY NoHang
CHECK_DEADLOCK FALSE
