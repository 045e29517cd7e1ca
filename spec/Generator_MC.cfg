SPECIFICATION Spec
INVARIANT NoAlias
INVARIANT Complete
INVARIANT Quiet
INVARIANT Alone
INVARIANT Emit
CHECK_DEADLOCK FALSE
