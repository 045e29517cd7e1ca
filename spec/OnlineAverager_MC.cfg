SPECIFICATION Spec
CONSTANT Streams = {1, 2}
INVARIANT StateIsOpenMoments
INVARIANT Averages
INVARIANT Emit
PROPERTY Isolation
