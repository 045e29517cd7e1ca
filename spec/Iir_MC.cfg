SPECIFICATION Spec
INVARIANT Adjoint
INVARIANT Linear
INVARIANT Energy
INVARIANT Ends
INVARIANT Emit
