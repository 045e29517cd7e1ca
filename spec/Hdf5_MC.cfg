SPECIFICATION Spec
INVARIANT Exact NeverTooMany Balanced Allowed Shares Emit
