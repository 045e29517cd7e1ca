SPECIFICATION Spec
INVARIANT StepIsConvolution
INVARIANT PrefixOfLonger
INVARIANT Padded
INVARIANT FixedPoint
INVARIANT Emit
PROPERTY Causal
