SPECIFICATION Spec
INVARIANT Turn
INVARIANT Exchange
INVARIANT Trace0
INVARIANT Transverse
INVARIANT Geometry
INVARIANT Delays
INVARIANT Rolls
INVARIANT Emit
