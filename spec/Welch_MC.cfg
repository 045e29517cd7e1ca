SPECIFICATION Spec
INVARIANT SegmentsFit
INVARIANT OffsetBlind
INVARIANT Parseval
INVARIANT FastAgrees
INVARIANT CrossOfSelf
INVARIANT CrossSwap
INVARIANT OneSegment
INVARIANT Emit
