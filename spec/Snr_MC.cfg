SPECIFICATION Spec
INVARIANT Parseval
INVARIANT Additive
INVARIANT Nested
INVARIANT Quadratic
INVARIANT ShiftBlind
INVARIANT EmptyBand
INVARIANT Emit
