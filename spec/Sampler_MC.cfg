SPECIFICATION Spec
INVARIANT Stored
INVARIANT Together
INVARIANT Emit
