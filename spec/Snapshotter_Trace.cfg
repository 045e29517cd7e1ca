SPECIFICATION TSpec
CONSTANT Streams = {1, 2}
INVARIANT Suffix
INVARIANT Offline
