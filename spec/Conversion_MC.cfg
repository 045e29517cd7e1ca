SPECIFICATION Spec
INVARIANT Rotation
INVARIANT Viewing
INVARIANT Limit
INVARIANT PhaseOnly
INVARIANT Label
INVARIANT Orbits
INVARIANT Masses
INVARIANT Emit
CHECK_DEADLOCK FALSE
