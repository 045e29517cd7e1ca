SPECIFICATION Spec
INVARIANT Alone
INVARIANT One
INVARIANT Leading
INVARIANT Emit
CHECK_DEADLOCK FALSE
