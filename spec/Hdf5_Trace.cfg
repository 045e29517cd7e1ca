SPECIFICATION TSpec
INVARIANT NoExcess
