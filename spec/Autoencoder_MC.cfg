SPECIFICATION Spec
INVARIANT Mirror
INVARIANT Result
INVARIANT Depth
INVARIANT Lengths
INVARIANT Fits
INVARIANT Emit
