SPECIFICATION Spec
INVARIANT UnfoldAgrees
INVARIANT NothingLost
INVARIANT RemainderShort
INVARIANT BoundsSound
INVARIANT Emit
