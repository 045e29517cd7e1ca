SPECIFICATION Spec
INVARIANT CauchySchwarz
INVARIANT Bounded
INVARIANT Centre
INVARIANT ScaleBlind
INVARIANT Past
INVARIANT MovesAlong
INVARIANT Emit
