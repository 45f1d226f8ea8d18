CONSTANT Judge <- Verdict
SPECIFICATION TSpec
POSTCONDITION TConsumed
CHECK_DEADLOCK FALSE
