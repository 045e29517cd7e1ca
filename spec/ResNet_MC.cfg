SPECIFICATION Spec
INVARIANT Agrees
INVARIANT Lengths
INVARIANT Refusal
INVARIANT Emit
PROPERTY DilationKeeps
PROPERTY ShortcutKeeps
