SPECIFICATION Spec
INVARIANT Whitened
INVARIANT Inverted
INVARIANT OwnChannel
INVARIANT Emit
