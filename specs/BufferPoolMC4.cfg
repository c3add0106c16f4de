SPECIFICATION Spec
CONSTANTS
  Keys = 4
  MaxPages = 3
  MaxSlab = 4
  PoolPages = 7
  MaxTick = 9
INVARIANTS Ok Merged
PROPERTY PinnedStay
CHECK_DEADLOCK FALSE
