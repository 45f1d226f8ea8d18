SPECIFICATION Spec
INVARIANTS RoundTrip Epoch Year Months
CHECK_DEADLOCK FALSE
