SPECIFICATION Spec
INVARIANTS OwnSetting OrderFree Injective
CHECK_DEADLOCK FALSE
