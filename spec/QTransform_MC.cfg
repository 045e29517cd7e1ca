SPECIFICATION Spec
INVARIANT Latest
INVARIANT Answers
INVARIANT Ranges
INVARIANT Bilinear
INVARIANT Emit
