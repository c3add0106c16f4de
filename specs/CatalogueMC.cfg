SPECIFICATION Spec
INVARIANTS Consistent Routed Shown
CHECK_DEADLOCK FALSE
