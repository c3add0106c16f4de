SPECIFICATION GSpec
INVARIANT Emit
CONSTANTS
  Keys = 4
  MaxPages = 3
  MaxSlab = 3
  PoolPages = 6
  MaxTick = 26
