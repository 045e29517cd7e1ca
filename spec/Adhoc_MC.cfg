SPECIFICATION Spec
INVARIANT Mirror
INVARIANT Flip
INVARIANT Round
INVARIANT Energy
INVARIANT Cycle
INVARIANT Starts
INVARIANT Quality
INVARIANT ExpLaw
INVARIANT Emit
CHECK_DEADLOCK FALSE
