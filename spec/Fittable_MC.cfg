SPECIFICATION Spec
CONSTANTS
  Inst = {1, 2}
  Slots = {1}
INVARIANT Guarded Emit
PROPERTY Isolation
