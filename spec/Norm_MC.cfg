SPECIFICATION Spec
INVARIANT Partition
INVARIANT Refusals
INVARIANT Moments
INVARIANT Apart
INVARIANT Invariant
INVARIANT Emit
