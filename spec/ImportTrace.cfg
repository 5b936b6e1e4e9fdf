SPECIFICATION ISpec
CHECK_DEADLOCK FALSE
POSTCONDITION Done
