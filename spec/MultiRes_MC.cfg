SPECIFICATION Spec
INVARIANT IndexMap
INVARIANT Single
INVARIANT Self
INVARIANT Swap
INVARIANT Kept
INVARIANT Opts
