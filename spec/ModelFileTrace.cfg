SPECIFICATION FSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Done
