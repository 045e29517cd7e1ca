SPECIFICATION Spec
CONSTANT Streams = {1, 2}
INVARIANT StateIsSuffix
INVARIANT Offline
INVARIANT Emit
PROPERTY Isolation
