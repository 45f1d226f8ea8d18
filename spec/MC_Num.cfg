SPECIFICATION Spec
INVARIANTS Unary Binary Seqs Once
CHECK_DEADLOCK FALSE
