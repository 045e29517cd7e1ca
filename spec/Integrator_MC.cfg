SPECIFICATION Spec
INVARIANT ClosedForm
INVARIANT Whole
INVARIANT Floor
INVARIANT Hat
PROPERTY Grows
INVARIANT Emit
