SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Done
