SPECIFICATION XSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Done
