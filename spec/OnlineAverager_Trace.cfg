SPECIFICATION TSpec
CONSTANT Streams = {1, 2}
INVARIANT Averages
