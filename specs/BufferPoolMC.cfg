SPECIFICATION Spec
CONSTANTS
  Keys = 3
  MaxPages = 3
  MaxSlab = 3
  PoolPages = 5
  MaxTick = 8
INVARIANTS Ok Merged
PROPERTY PinnedStay
CHECK_DEADLOCK FALSE
