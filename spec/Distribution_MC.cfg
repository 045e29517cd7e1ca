SPECIFICATION Spec
INVARIANT AreaIsProbability
INVARIANT WholeRange
INVARIANT FromNothing
INVARIANT Cubes
INVARIANT Emit
PROPERTY Grows
