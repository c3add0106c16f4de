SPECIFICATION Spec
INVARIANTS NamesTellApart CanonIdempotent CanonNull NullForms Wider
CHECK_DEADLOCK FALSE
