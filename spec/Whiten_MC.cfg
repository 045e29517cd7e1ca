SPECIFICATION Spec
INVARIANT ZeroPhase
INVARIANT OffsetBlind
INVARIANT Additive
INVARIANT EmptyBand
INVARIANT Flat
INVARIANT Homogeneous
INVARIANT Emit
