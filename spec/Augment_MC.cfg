SPECIFICATION Spec
INVARIANT Images
INVARIANT Determined
INVARIANT Emit
