SPECIFICATION Spec
INVARIANT OwnCall
INVARIANT Refused
INVARIANT Lines
INVARIANT Emit
