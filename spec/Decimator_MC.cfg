SPECIFICATION Spec
INVARIANT Inside
INVARIANT Increasing
INVARIANT FullRate
INVARIANT Reorders
INVARIANT InOrder
INVARIANT ShiftBlind
INVARIANT Emit
