SPECIFICATION Spec
INVARIANT Mean0
INVARIANT UnitModulus
INVARIANT Linear
INVARIANT Energy
INVARIANT Undo
INVARIANT Emit
