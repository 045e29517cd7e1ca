SPECIFICATION Spec
INVARIANT PerChunk Contained Emit
PROPERTY Finishes
